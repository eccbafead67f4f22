package main

// C01: Parse is total, and what it returns can be used.

import (
	"math/rand"
	"runtime/metrics"
	"strings"

	g "github.com/mmadfox/go-geoql-parser"
)

var someDict = g.Dictionary{"a": g.Int, "speed": g.Float, "device": g.ArrayString, "x": g.String, "fuel": g.Float, "t": g.Boolean,
	"coords": g.ArrayFloat, "k9": g.ArrayInt, "met": g.SelectorType(99), "si": g.SelectorType(-1), "s1": g.Int, "s2": g.Float}

// sizeWriter counts what is written and stops beyond a limit.
type sizeWriter struct {
	n, limit int
	over     bool
}

type tooLong struct{}

func (tooLong) Error() string { return "too long" }

func (w *sizeWriter) WriteString(s string) (int, error) {
	w.n += len(s)
	if w.n > w.limit {
		w.over = true
		return 0, tooLong{}
	}
	return len(s), nil
}

func outputLimit(n int) int { return 4096 + 64*n + 4*n*min(n, 2000) }

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// total checks one text and returns the steps Parse took, and those of what
// follows.
func (c *ctx) total(src string) (parse, rest uint64) {
	c.eval()
	c.written = 0
	var before uint64
	if len(src) >= 4096 {
		before = allocated()
	}
	st, err, ok := c.parse(src)
	parse = c.steps
	if !ok {
		return
	}
	if len(src) >= 4096 {
		// what a statement takes is less than a hundred bytes for each of the text
		used := allocated() - before
		c.max("bytes allocated by Parse per byte", int(used)/(len(src)))
		if used > 4<<20+2000*uint64(len(src)) {
			c.fail(src, "Parse allocates %d bytes for a text of %d bytes", used, len(src))
		}
	}
	if err != nil {
		c.count("rejected")
		if st != nil {
			c.fail(src, "a statement (%T) next to the error", st)
		}
		if e, is := err.(*g.Error); is && e == nil {
			c.fail(src, "a nil *Error as error")
			return
		}
		c.guard("Error", src, len(src), func() {
			if s := err.Error(); len(s) > 4096+8*len(src) {
				c.fail(src, "error message of %d bytes", len(s))
			}
		})
		return
	}
	c.count("accepted")
	t, is := st.(*g.Trigger)
	if st == nil || is && t == nil {
		c.fail(src, "neither a statement nor an error (%T)", st)
		return
	}
	w := &sizeWriter{limit: outputLimit(len(src))}
	c.guard("Format", src, len(src), func() {
		if err := g.Format(w, st); err != nil && !w.over {
			c.fail(src, "Format: %v", err)
		}
	})
	if w.over {
		c.fail(src, "formatted text is longer than %d bytes", w.limit)
	}
	rest += c.steps
	c.written = w.n
	c.max("formatted bytes", w.n)
	if is {
		nodes := 0
		c.guard("Visit", src, len(src), func() {
			g.Visit(t, func(e g.Expr) bool {
				if e != nil {
					nodes++
					if nodes < 500 && e.Pos() > e.End()+1<<40 { // only that they return
						nodes++
					}
				}
				return true
			})
		})
		rest += c.steps
		c.max("nodes", nodes)
		if nodes > 16+4*len(src) {
			c.fail(src, "%d nodes for %d bytes", nodes, len(src))
		}
	}
	for _, d := range []g.Dictionary{nil, someDict} {
		c.guard("CheckType", src, len(src), func() {
			if err := g.CheckType(st, d); err != nil {
				if len(err.Error()) > outputLimit(len(src)) {
					c.fail(src, "type error message of %d bytes", len(err.Error()))
				}
			}
		})
		rest += c.steps
	}
	return
}

var families = []struct {
	name string
	make func(n int) string
}{
	{"nested parentheses", func(n int) string { return "when " + strings.Repeat("(", n/2) + "a" + strings.Repeat(")", n/2) }},
	{"open parentheses", func(n int) string { return "when " + strings.Repeat("(", n) }},
	{"closing parentheses", func(n int) string { return "when a" + strings.Repeat(")", n) }},
	{"nested arrays", func(n int) string { return "when " + strings.Repeat("[", n/2) + "1" + strings.Repeat("]", n/2) }},
	{"nested parentheses and arrays", func(n int) string { return "when " + strings.Repeat("([", n/4) + "1" + strings.Repeat("])", n/4) }},
	{"nested properties", func(n int) string { return "when " + strings.Repeat("a:", n/2) + "1" }},
	{"nested bracketed properties", func(n int) string { return "when " + strings.Repeat("a:(", n/4) + "1" + strings.Repeat(")", n/4) }},
	{"nested properties and more", func(n int) string {
		return "when " + strings.Repeat("a:1,(b + ", n/10) + "1" + strings.Repeat(")", n/10)
	}},
	{"parentheses with operators", func(n int) string { return "when " + strings.Repeat("(a + ", n/6) + "1" + strings.Repeat(")", n/6) }},
	{"parentheses to the right", func(n int) string { return "when " + strings.Repeat("(", n/6) + "1" + strings.Repeat(" + a)", n/6) }},
	{"ranges in parentheses", func(n int) string { return "when " + strings.Repeat("1 .. (", n/7) + "1" + strings.Repeat(")", n/7) }},
	{"range chain", func(n int) string { return "when 1" + strings.Repeat(" .. 1", n/5) }},
	{"open ranges", func(n int) string { return "when " + strings.Repeat("1 .. ", n/5) }},
	{"signs", func(n int) string { return "when " + strings.Repeat("-", n) + "1" }},
	{"plus chain", func(n int) string { return "when a" + strings.Repeat("+a", n/2) }},
	{"minus chain", func(n int) string { return "when 1" + strings.Repeat(" - -1", n/5) }},
	{"rising precedence", func(n int) string { return "when a" + strings.Repeat(" or a and a < a + a * a", n/23) }},
	{"falling precedence", func(n int) string { return "when a" + strings.Repeat(" * a + a < a and a or a", n/23) }},
	{"comparison chain", func(n int) string { return "when a" + strings.Repeat(" not intersects a", n/17) }},
	{"strings added", func(n int) string { return "when \"x\"" + strings.Repeat(" + \"y\"", n/6) }},
	{"long identifier", func(n int) string { return "when " + strings.Repeat("a", n) }},
	{"long unicode identifier", func(n int) string { return "when " + strings.Repeat("é", n/2) }},
	{"long string", func(n int) string { return "when \"" + strings.Repeat("s", n) + "\"" }},
	{"open string", func(n int) string { return "when \"" + strings.Repeat("s", n) }},
	{"escapes", func(n int) string { return "when \"" + strings.Repeat("\\\\", n/2) + "\"" }},
	{"bad escapes", func(n int) string { return "when \"" + strings.Repeat("\\q", n/2) + "\"" }},
	{"quotes", func(n int) string { return "when " + strings.Repeat("\"", n) }},
	{"long integer", func(n int) string { return "when " + strings.Repeat("9", n) }},
	{"long float", func(n int) string { return "when 0." + strings.Repeat("3", n) }},
	{"long big float", func(n int) string { return "when " + strings.Repeat("9", n) + ".5" }},
	{"long duration", func(n int) string { return "when 1" + strings.Repeat("h1", n/2) + "s" }},
	{"underscores", func(n int) string { return "when 1" + strings.Repeat("_", n) }},
	{"white space", func(n int) string { return "when" + strings.Repeat(" \n", n/2) + "a" }},
	{"comments", func(n int) string { return "when " + strings.Repeat("/**/ ", n/5) + "a" }},
	{"open comment", func(n int) string { return "when /*" + strings.Repeat("*", n) }},
	{"line comments", func(n int) string { return "when " + strings.Repeat("//\n", n/3) + "a" }},
	{"NULs", func(n int) string { return "when " + strings.Repeat("\x00", n) }},
	{"invalid encoding", func(n int) string { return "when " + strings.Repeat("\xff", n) }},
	{"cut runes", func(n int) string { return "when \"" + strings.Repeat("\xe2\x82", n/2) + "\"" }},
	{"byte order marks", func(n int) string { return strings.Repeat("\ufeff", n/3) + "when a" }},
	{"periods", func(n int) string { return "when a " + strings.Repeat(".", n) }},
	{"not", func(n int) string { return "when " + strings.Repeat("not ", n/4) + "a" }},
	{"not in", func(n int) string { return "when a " + strings.Repeat("not in ", n/7) + "b" }},
	{"at signs", func(n int) string { return "when " + strings.Repeat("@", n) }},
	{"equal signs", func(n int) string { return "when a " + strings.Repeat("=", n) }},
	{"stars", func(n int) string { return "when " + strings.Repeat("*", n) }},
	{"stars apart", func(n int) string { return "when *" + strings.Repeat(" * *", n/4) }},
	{"commas", func(n int) string { return "when point[1" + strings.Repeat(",", n) + "2]" }},
	{"semicolons", func(n int) string { return "trigger set v = 1" + strings.Repeat(";", n) + " when a" }},
	{"when", func(n int) string { return strings.Repeat("when ", n/5) }},
	{"trigger", func(n int) string { return strings.Repeat("trigger ", n/8) }},
	{"set", func(n int) string { return "trigger " + strings.Repeat("set ", n/4) + "when a" }},
	{"repeat", func(n int) string { return "when a " + strings.Repeat("repeat 1 ", n/9) }},
	{"reset", func(n int) string { return "when a " + strings.Repeat("reset after 1s ", n/15) }},
	{"integer array", func(n int) string { return "when a in [1" + strings.Repeat(",1", n/2) + "]" }},
	{"open array", func(n int) string { return "when a in [1" + strings.Repeat(",1", n/2) }},
	{"string array", func(n int) string { return "when a in [\"\"" + strings.Repeat(",\"x\"", n/4) + "]" }},
	{"range array", func(n int) string { return "when a in [1 .. 2" + strings.Repeat(",1 .. 2", n/7) + "]" }},
	{"selector array", func(n int) string { return "when [a" + strings.Repeat(",a:1", n/4) + "]" }},
	{"device ids", func(n int) string {
		var b strings.Builder
		b.WriteString("when a{")
		for i := 0; b.Len() < n; i++ {
			b.WriteString("\"d" + strings.Repeat("x", i%7) + string(rune('a'+i%26)) + string(rune('a'+i/26%26)) + string(rune('a'+i/676%26)) + "\",")
		}
		b.WriteString("}")
		return b.String()
	}},
	{"same device id", func(n int) string { return "when a{\"d\"" + strings.Repeat(",\"d\"", n/4) + "}" }},
	{"wildcards", func(n int) string { return "when a{" + strings.Repeat("*,", n/2) + "}" }},
	{"open arguments", func(n int) string { return "when a{" + strings.Repeat("\"d\",", n/4) }},
	{"arguments without end", func(n int) string { return strings.Repeat("when a{", n/7) }},
	{"properties", func(n int) string { return "when a:1" + strings.Repeat(",5km", n/4) }},
	{"variables", func(n int) string {
		var b strings.Builder
		b.WriteString("trigger set ")
		for i := 0; b.Len() < n; i++ {
			b.WriteString("v" + strings.Repeat(string(rune('a'+i%26)), 1+i/26%13) + string(rune('a'+i/338%26)) + string(rune('a'+i/8788%26)) + "=1;")
		}
		b.WriteString(" when @va")
		return b.String()
	}},
	{"line", func(n int) string { return "when line[" + strings.Repeat("[1,2],", n/6) + "]" }},
	{"open line", func(n int) string { return "when line[" + strings.Repeat("[1,2],", n/6) }},
	{"polygon", func(n int) string { return "when polygon[" + strings.Repeat("[[1.5,-2]],", n/11) + "]" }},
	{"polygon ring", func(n int) string { return "when polygon[[" + strings.Repeat("[1.5,-2],", n/9) + "]]" }},
	{"geometry brackets", func(n int) string { return "when polygon" + strings.Repeat("[", n) }},
	{"multipoint", func(n int) string {
		return "when multipoint[point[1,2]" + strings.Repeat(",point[1,2]:5km", n/15) + "]"
	}},
	{"open multiline", func(n int) string { return "when multiline[" + strings.Repeat("line[[1,2]],", n/12) }},
	{"collection", func(n int) string {
		return "when collection[" + strings.Repeat("multipoint[point[1,2]],line[[1,2]],", n/35) + "point[1,2]]"
	}},
	{"nested collections", func(n int) string { return "when " + strings.Repeat("collection[", n/11) }},
	{"geometries", func(n int) string { return strings.Repeat("when point[", n/11) }},
	{"dates", func(n int) string { return "when date[2022-01-01" + strings.Repeat(",2023-02-03", n/11) + "]" }},
	{"open times", func(n int) string { return "when time[10:10" + strings.Repeat(",10:10pm", n/8) }},
	{"times", func(n int) string { return "when time[10:10" + strings.Repeat(",10:10:10", n/9) + "]" }},
	{"weekdays", func(n int) string { return "when weekday[mon" + strings.Repeat(",tue", n/4) + "]" }},
	{"open months", func(n int) string { return "when month[" + strings.Repeat("jan,", n/4) }},
	{"calendar keywords", func(n int) string { return "when " + strings.Repeat("time[", n/5) }},
	{"units", func(n int) string { return "when 5km" + strings.Repeat(" + 5%", n/5) }},
	{"percent signs", func(n int) string { return "when 5" + strings.Repeat("%", n) }},
	{"text after the end", func(n int) string { return "when a reset after 1s " + strings.Repeat("b ", n/2) }},
	{"type error deep down", func(n int) string { return "when " + strings.Repeat("(true + ", n/9) + "1" + strings.Repeat(")", n/9) }},
	{"chain of numbers", func(n int) string { return "when 1" + strings.Repeat(" + 1.5 * 2", n/10) + " > 3" }},
}

// nestings build something of n levels, and contexts use it as an operand.
var nestings = []struct {
	name string
	make func(n int) string
}{
	{"range chain", func(n int) string { return "1" + strings.Repeat(" .. 2", n) }},
	{"parentheses", func(n int) string { return strings.Repeat("(", n) + "1" + strings.Repeat(")", n) }},
	{"parentheses with a sum", func(n int) string { return strings.Repeat("(1 + ", n) + "1" + strings.Repeat(")", n) }},
	{"sums in parentheses", func(n int) string { return strings.Repeat("(", n) + "1" + strings.Repeat(" + 2)", n) }},
	{"parentheses with a name", func(n int) string { return strings.Repeat("(speed and ", n) + "t" + strings.Repeat(")", n) }},
	{"wide parentheses", func(n int) string {
		return strings.Repeat("(speed > 100 and device in [\"a\", \"b\"] or ", n) + "t" + strings.Repeat(")", n)
	}},
	{"ranges in parentheses", func(n int) string { return strings.Repeat("(1 .. ", n) + "2" + strings.Repeat(")", n) }},
	{"ranges of ranges", func(n int) string { return strings.Repeat("(", n) + "1" + strings.Repeat(" .. 2)", n) }},
	{"arrays", func(n int) string { return strings.Repeat("[", n) + "1" + strings.Repeat("]", n) }},
	{"arrays of two", func(n int) string { return strings.Repeat("[a, ", n) + "1" + strings.Repeat("]", n) }},
	{"properties", func(n int) string { return strings.Repeat("a:", n) + "1" }},
	{"properties in parentheses", func(n int) string { return strings.Repeat("a:(", n/2) + "1" + strings.Repeat(")", n/2) }},
	{"arguments and properties", func(n int) string { return strings.Repeat("a{\"x\"}:", n) + "5km" }},
	{"negations", func(n int) string { return strings.Repeat("-(", n) + "1" + strings.Repeat(")", n) }},
	{"sum", func(n int) string { return "1" + strings.Repeat(" + 2", n) }},
	{"product of sums", func(n int) string { return "(1 + 2)" + strings.Repeat(" * (1 + 2)", n) }},
	{"texts", func(n int) string { return "\"a\"" + strings.Repeat(" + \"b\"", n) }},
	{"conditions", func(n int) string { return "t" + strings.Repeat(" and speed > 1", n) }},
	{"equalities", func(n int) string { return "t" + strings.Repeat(" == t", n) }},
	{"mixed", func(n int) string { return strings.Repeat("([a:(1 .. ", n/4) + "2" + strings.Repeat(")])", n/4) }},
	{"list", func(n int) string { return "[1" + strings.Repeat(", 2", n) + "]" }},
	{"list of ranges", func(n int) string { return "[1 .. 2" + strings.Repeat(", 1 .. 2", n) + "]" }},
	{"list of names", func(n int) string { return "[a" + strings.Repeat(", speed:5km", n) + "]" }},
}

var contexts = []string{"when N", "when 1 in N", "when N in 1 .. 2", "when 1 not in N", "when N == 1", "when 1 == N", "when N == N", "when speed in N",
	"when device in N", "when \"x\" in N", "when @v in N", "when N in device", "when N in [1, 2]", "when N nearby point[1, 2]", "when a intersects N",
	"when N and t", "when t or N", "when 2.5 * N > 1", "when N .. N", "when 1 in N .. 3", "when 1 in (N) .. 3", "when a:N", "when a:N nearby a", "when -(N) < 1", "when [N]", "when [N, N]",
	"when 1 in [N]", "when a:N,5km", "when \"1\" in N", "when 1.5 in N", "when 10:10 in N", "when true in N", "when 5km in N", "when 5% < N", "when jan in N", "when 10s in N", "when 2020-01-01 in N",
	"trigger set v = N; when 1 in @v", "trigger set v = N; w = @v; when @v == @w", "trigger set v = N; when t and (speed in @v or @v == 1)", "trigger set v = N; when @v", "trigger set v = [N]; when device in @v",
	"trigger set v = 1 .. 2; when N in @v"}

// nestedUse lets the levels of something used as an operand grow.
func (c *ctx) nestedUse(i int) {
	f, in := nestings[i%len(nestings)], contexts[i/len(nestings)]
	name := f.name + " in " + in
	if c.ill[name] {
		return
	}
	bad := len(c.st.Violations)
	defer func() {
		if len(c.st.Violations) > bad {
			c.mark(name)
		}
	}()
	var p0, r0, o0 uint64
	for k, n := range []int{3, 6, 12, 24, 60, 120, 240, 480, 960} {
		s := strings.ReplaceAll(in, "N", f.make(n))
		p, q := c.total(s)
		if len(c.st.Violations) > bad {
			return
		}
		if instrumented && k > 0 && (p > 4*p0+5000 || q > 8*r0+20000) {
			c.fail(clip(s), "%s: from the %d. number of levels to %d the steps grow from %d+%d to %d+%d", name, k, n, p0, r0, p, q)
			return
		}
		p0, r0 = p, q
		o := uint64(c.written)
		if k > 0 && o0 > 0 && o > 7*o0+2000 {
			c.fail(clip(s), "%s: from the %d. number of levels to %d the formatted text grows from %d to %d bytes", name, k, n, o0, o)
			return
		}
		o0 = o
		if o > 0 {
			c.count("nested operands accepted")
		}
	}
	c.nontrivial(name)
}

func init() {
	nf := len(families)
	sizes := []int{10, 40, 200, 1000, 5000, 30000, 120000}
	large := []int{1 << 20, 4 << 20, 9 << 20}
	register(&property{id: "C01",
		rule: "generated, edited and random texts, coverage-guided evolution, and families of hostile texts at growing sizes; monitors: exactly one of statement and error, no panic, no crash, steps, output and allocation bounded by a polynomial of the length; non-trivial: distinct texts by the set of code blocks they ran",
		need: []string{"accepted", "rejected", "nested operands accepted"},
		notes: []string{"time is measured in executed blocks of the repository's own code; work inside the standard library is only bounded through allocation and output size",
			"memory beyond 3 GB in one worker counts as exhaustion"},
		parts: []part{
			{"any text", 300_000, 6_000_000, func(c *ctx, r *rand.Rand, i int) { s := anyText(r); c.total(s); c.nontrivial(c.pathKey()) }},
			{"growth", nf, nf, func(c *ctx, r *rand.Rand, i int) {
				f := families[i]
				var p0, r0 uint64
				bad := len(c.st.Violations)
				defer func() {
					if len(c.st.Violations) > bad {
						c.mark(f.name)
					}
				}()
				for n := 256; n <= 32768; n *= 2 {
					s := f.make(n)
					p, q := c.total(s)
					c.max("steps per byte, parse", int(p)/len(s))
					c.max("steps per byte, use", int(q)/len(s))
					if n > 256 && instrumented {
						k := uint64(3)
						if f.name == "variables" { // every name is compared with all before it
							k = 6
						}
						if p > k*p0+50000 || q > 6*r0+50000 {
							c.fail(clip(s), "%s: doubling the text to %d bytes takes the steps from %d+%d to %d+%d", f.name, len(s), p0, r0, p, q)
							return
						}
					}
					p0, r0 = p, q
				}
				c.count("growth curves")
			}},
			{"hostile families", nf * len(sizes), nf * len(sizes), func(c *ctx, r *rand.Rand, i int) {
				c.hostile(families[i%nf].name, families[i%nf].make(sizes[i/nf]))
			}},
			{"large", nf, nf * len(large), func(c *ctx, r *rand.Rand, i int) {
				n := large[i/nf]
				if families[i%nf].name == "variables" {
					n = 150_000 // every name is compared with all before it
				}
				if f := families[i%nf]; !c.thorough() && (strings.Contains(f.name, "nested") || strings.Contains(f.name, "open") || strings.Contains(f.name, "chain")) {
					n = 9 << 20
				}
				c.hostile(families[i%nf].name, families[i%nf].make(n))
			}},
			{"nested operands", len(nestings) * len(contexts), len(nestings) * len(contexts), func(c *ctx, r *rand.Rand, i int) { c.nestedUse(i) }},
			{"doubled structure", 20_000, 400_000, func(c *ctx, r *rand.Rand, i int) {
				// a random stretch of tokens repeated many times, nested or in a row
				s, _, _ := statement(r, anyStmt, 1)
				if r.Intn(2) == 0 {
					s = mutateTokens(r, s, 2, nil)
				}
				p := pieces(s)
				a := r.Intn(len(p))
				b := min(len(p), a+1+r.Intn(5))
				k := 1 + r.Intn(200)
				rep := strings.Repeat(strings.Join(p[a:b], ""), k)
				tail := strings.Join(p[b:], "")
				if r.Intn(2) == 0 && len(tail) > 0 {
					q := pieces(tail)
					e := r.Intn(len(q))
					tail = strings.Repeat(strings.Join(q[:e], ""), k) + strings.Join(q[e:], "")
				}
				c.total(strings.Join(p[:a], "") + rep + tail)
				c.nontrivial(c.pathKey())
			}},
			{"evolved", 16, 320, func(c *ctx, r *rand.Rand, i int) { c.evolve(r, 12000, func(s string) { c.total(s) }) }},
			nestPart(30_000, 1_000_000, func(c *ctx, src string) { c.total(src); c.nontrivial(c.pathKey()) }),
			wordPart(func(c *ctx, src string) { c.total(src); c.nontrivial(c.pathKey()) }),
		}})
}

// pathKey identifies the set of blocks run since the case began.
func (c *ctx) pathKey() string {
	h := blockHits()
	b := make([]byte, (len(h)+7)/8)
	for i, n := range h {
		if n > 0 {
			b[i/8] |= 1 << (i % 8)
		}
	}
	return string(b)
}

// mark notes a family that fails, so that it is not tried at larger sizes.
func (c *ctx) mark(family string) {
	if c.ill == nil {
		c.ill = map[string]bool{}
	}
	c.ill[family] = true
}

func (c *ctx) hostile(name, src string) {
	if c.ill[name] { // it is known, and larger texts take too long
		return
	}
	before := allocated()
	n := len(c.st.Violations)
	c.total(src)
	if len(c.st.Violations) > n {
		c.mark(name)
	}
	used := allocated() - before
	c.max("bytes allocated per byte", int(used)/(len(src)+1000))
	if lim := uint64(8<<20) + 8000*uint64(len(src)) + 64*uint64(len(src))*uint64(min(len(src), 2000)); used > lim && len(c.st.Violations) == n {
		c.fail(clip(src), "%s: %d bytes allocated for a text of %d bytes", name, used, len(src))
	}
	c.nontrivial(name + c.pathKey())
	c.sample(name + ": " + src)
}
