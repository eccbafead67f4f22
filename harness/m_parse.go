package main

// Monitors of the parser against the reference model: C02 to C09.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	g "github.com/mmadfox/go-geoql-parser"
)

// parse runs the real parser on src.
func (c *ctx) parse(src string) (st g.Statement, err error, ok bool) {
	ok = c.guard("Parse", src, len(src), func() { st, err = g.Parse(src) })
	return
}

// verdict compares the real parser with the reference on src; it returns the
// reference result and the statement if both accept.
func (c *ctx) verdict(src string, trees bool) (ref refResult, have *node, st g.Statement) {
	ref = refParse(src)
	if ref.deep {
		c.count("skipped: nested deeply")
		return ref, nil, nil
	}
	c.eval()
	st, err, ok := c.parse(src)
	if !ok {
		return ref, nil, nil
	}
	switch {
	case err == nil && ref.tree == nil:
		c.fail(src, "accepted, although %s does not continue a statement", describe(ref))
		return ref, nil, nil
	case err != nil && ref.tree != nil:
		c.fail(src, "rejected, although well-formed: %v", errText(err))
		return ref, nil, nil
	case err != nil:
		c.count("rejected")
		return ref, nil, nil
	}
	c.count("accepted")
	have = convStmt(st)
	if trees {
		if d := diffTree(have, ref.tree, false); d != "" {
			c.fail(src, "statement differs from the text: %s", d)
			return ref, nil, nil
		}
	}
	return ref, have, st
}

func errText(err error) string {
	if e, ok := err.(*g.Error); ok && e != nil {
		return fmt.Sprintf("offset %d near %q: %v", e.Offset, clip(e.Lit), e.Err)
	}
	return fmt.Sprint(err)
}

func describe(r refResult) string {
	if r.fail < len(r.toks) {
		t := r.toks[r.fail]
		return fmt.Sprintf("token %d (%s %q at %d)", r.fail, t.k, clip(t.raw), t.off)
	}
	return "a lexical error"
}

// expect parses src, which the generator made from want.
func (c *ctx) expect(src string, want *node) (st g.Statement, have *node) {
	c.eval()
	st, err, ok := c.parse(src)
	if !ok {
		return nil, nil
	}
	if err != nil {
		c.fail(src, "rejected, although well-formed: %v", errText(err))
		return nil, nil
	}
	have = convStmt(st)
	if d := diffTree(have, want, false); d != "" {
		c.fail(src, "statement differs from the one written: %s", d)
		return nil, nil
	}
	c.count("accepted")
	return st, have
}

func (c *ctx) kinds(n *node) {
	n.each(func(k *node) {
		switch k.k {
		case "bin":
			c.count("node bin")
			c.count("operator " + k.v)
		case "array":
			c.count("array of " + k.v)
		default:
			c.count("node " + k.k)
		}
	})
}

// ---- C02

var droppedWords = map[string]bool{"trigger": true, "set": true, "when": true, "repeat": true, "reset": true}

// tokenAtoms lists what the text says, in order, from its tokens alone.
func tokenAtoms(toks []tok) (atoms []string, strs map[string]bool, minus int) {
	strs = map[string]bool{}
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch t.k {
		case "INT", "FLOAT":
			v := numValue(t.raw)
			n := toks[min(i+1, len(toks)-1)]
			if n.k == "SELECTOR" || n.raw == "%" {
				if u, ok := unitKind[n.raw]; ok {
					atoms = append(atoms, "unit "+u[0]+" "+u[1])
					i++
				} else if n.k == "SELECTOR" && strings.ContainsRune("hms", rune(n.lit[0])) {
					if d, err := time.ParseDuration(t.raw + n.lit); err == nil {
						atoms = append(atoms, "duration "+strconv.FormatInt(int64(d), 10))
						i++
						continue
					}
				}
			}
			if v != 0 {
				atoms = append(atoms, "num "+ftoa(v))
			}
		case "STRING":
			strs[stripQuotes(t.raw)] = true
		case "SELECTOR":
			switch l := t.lit; {
			case l == "every" || l == "after":
			case i > 0 && toks[i-1].k == "@":
				atoms = append(atoms, "name "+t.raw)
			default:
				atoms = append(atoms, "word "+l)
			}
		case "bool":
			atoms = append(atoms, "bool "+strconv.FormatBool(t.lit == "true" || t.lit == "up"))
		case "-":
			minus++
		case "+", "*", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "@", "EOF", "..":
		default:
			if !droppedWords[t.k] {
				atoms = append(atoms, t.k)
			}
		}
	}
	return
}

// treeAtoms lists what the statement says.
func treeAtoms(n *node, atoms *[]string, strs map[string]bool, minus *int) {
	add := func(s string) { *atoms = append(*atoms, s) }
	num := func(v float64) {
		if v < 0 {
			*minus++
			v = -v
		}
		if v != 0 {
			add("num " + ftoa(v))
		}
	}
	f := strings.Fields(n.v)
	switch n.k {
	case "trigger", "when", "count", "interval", "reset", "paren", "array", "range", "ident":
	case "assign":
		if l := strings.ToLower(n.v); l != "every" && l != "after" {
			add("word " + l)
		}
	case "bin":
		treeAtoms(n.kids[0], atoms, strs, minus)
		switch n.v {
		case "-":
			*minus++
		case "+", "*":
		default:
			add(n.v)
		}
		treeAtoms(n.kids[1], atoms, strs, minus)
		return
	case "selector":
		name := n.v[:strings.IndexByte(n.v, '{')]
		if name != "every" && name != "after" {
			add("word " + name)
		}
	case "ref":
		if l := strings.ToLower(n.v); l != "every" && l != "after" {
			add("name " + n.v)
		}
	case "int", "float":
		v, _ := strconv.ParseFloat(n.v, 64)
		num(v)
	case "percent", "pressure", "distance", "speed", "temperature":
		u := ""
		if len(f) > 1 {
			u = f[1]
		}
		if n.k == "temperature" && strings.HasSuffix(n.v, " -") {
			*minus++
		}
		add("unit " + n.k + " " + u)
		v, _ := strconv.ParseFloat(f[0], 64)
		num(v)
	case "duration":
		add("duration " + n.v)
	case "string":
		s, _ := strconv.Unquote(n.v)
		strs[s] = true
	case "bool":
		add("bool " + n.v)
	case "point", "line", "polygon":
		add(n.k)
		for _, w := range strings.FieldsFunc(n.v, func(r rune) bool { return strings.ContainsRune("[], ", r) }) {
			v, _ := strconv.ParseFloat(w, 64)
			num(v)
		}
	case "multi":
		add(n.v)
	case "collection":
		add("collection")
	case "date":
		*minus += 2
		for _, w := range strings.Split(n.v, "-") {
			v, _ := strconv.ParseFloat(w, 64)
			num(v)
		}
	case "time":
		for _, w := range strings.Split(f[0], ":") {
			v, _ := strconv.ParseFloat(w, 64)
			num(v)
		}
		if len(f) > 1 {
			add("word " + strings.ToLower(f[1]))
		}
	case "weekday", "month":
		v, _ := strconv.Atoi(n.v)
		names := weekdayNames
		if n.k == "month" {
			names = monthNames
		}
		for w, i := range names {
			if i == v {
				add("word " + w)
			}
		}
	}
	for _, k := range n.kids {
		treeAtoms(k, atoms, strs, minus)
	}
}

func firstDiff(want, got []string) string {
	for i := 0; ; i++ {
		a, b := "nothing", "nothing"
		if i < len(want) {
			a = fmt.Sprintf("%q", clip(want[i]))
		}
		if i < len(got) {
			b = fmt.Sprintf("%q", clip(got[i]))
		}
		if a != b || i > len(want) {
			return "item " + strconv.Itoa(i) + " is " + a + " in the text, " + b + " in the statement"
		}
	}
}

// conserved checks that the words, numbers, units, operators and strings of
// an accepted text are those of its statement. It knows no grammar.
func (c *ctx) conserved(src string, have *node) {
	toks, _ := lex(src)
	want, ws, wm := tokenAtoms(toks)
	var got []string
	gs, gm := map[string]bool{}, 0
	treeAtoms(have, &got, gs, &gm)
	// calendar keywords are written once for a list
	strip := func(l []string) (o []string) {
		for _, a := range l {
			switch a {
			case "date", "time", "weekday", "month":
			default:
				o = append(o, a)
			}
		}
		return
	}
	want, got = strip(want), strip(got)
	c.add("tokens accounted for", len(want))
	if len(want) != len(got) {
		c.fail(src, "%d words and numbers in the text, %d in the statement: %s", len(want), len(got), firstDiff(want, got))
		return
	}
	for i := range want {
		if want[i] != got[i] {
			c.fail(src, "text and statement differ at item %d: %q in the text, %q in the statement", i, want[i], got[i])
			return
		}
	}
	// device ids are a set kept in the value of the selector
	var args strings.Builder
	have.each(func(n *node) {
		if n.k == "selector" {
			args.WriteString(n.v)
		}
	})
	for s := range ws {
		if !gs[s] && !strings.Contains(args.String(), strconv.Quote(s)) {
			c.fail(src, "the string %q is not in the statement", clip(s))
		}
	}
	for s := range gs {
		if !ws[s] {
			c.fail(src, "the string %q is not in the text", clip(s))
		}
	}
	// only -0 may lose its sign
	if gm > wm || gm < wm && !strings.Contains(src, "0") {
		c.fail(src, "%d minus signs in the text, %d in the statement", wm, gm)
	}
}

func init() {
	check := func(c *ctx, src string) {
		ref, have, _ := c.verdict(src, true)
		if have != nil {
			c.conserved(src, have)
			c.kinds(have)
			c.nontrivial(have.String())
			c.sample(src)
		}
		_ = ref
	}
	register(&property{id: "C02",
		rule: "texts made by editing generated statements at token and byte level; non-trivial: accepted, counted by distinct statement",
		need: []string{"accepted", "rejected", "tokens accounted for"},
		parts: []part{
			{"near misses", 500_000, 8_000_000, func(c *ctx, r *rand.Rand, i int) { check(c, nearMiss(r)) }},
			{"valid", 60_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				s, _, _ := statement(r, anyStmt, i%4)
				check(c, s)
			}},
			{"evolved", 16, 160, func(c *ctx, r *rand.Rand, i int) { c.evolve(r, 12000, func(s string) { check(c, s) }) }},
			{"tails", 60_000, 500_000, func(c *ctx, r *rand.Rand, i int) {
				s, _, _ := statement(r, stmtOpts{vars: 1, operands: 2, clauses: true}, r.Intn(3))
				for k := 0; k < 3; k++ {
					s += " " + word(r)
				}
				check(c, s)
			}},
			{"list edits", 100_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				x := newGen(r)
				switch i % 5 {
				case 0:
					x.array(elemKinds[r.Intn(len(elemKinds))])
				case 1:
					x.calendar(calendarKinds[r.Intn(4)], 1+r.Intn(2))
				case 2:
					x.geometry()
				case 3:
					x.selector(true)
				case 4:
					x.rangeExpr()
				}
				s, _, _ := layout(x.toks, r.Intn(3), r)
				check(c, "trigger when "+mutateTokens(r, s, 2, nil))
			}},
			{"neutral operands", 2 * len(neutral) * len(allOps) * len(forms), 2 * len(neutral) * len(allOps) * len(forms), func(c *ctx, r *rand.Rand, i int) {
				f := forms[i%len(forms)]
				op := allOps[i/len(forms)%len(allOps)]
				k := neutral[i/len(forms)/len(allOps)%len(neutral)]
				if k == "" {
					k = f
				}
				if i%2 == 0 {
					f, k = k, f
				}
				s := f + " " + op + " " + k
				switch i / 2 % 4 {
				case 1:
					s = "(" + s + ")"
				case 2:
					s = "a " + allOps[r.Intn(len(allOps))] + " " + s
				case 3:
					s += " " + allOps[r.Intn(len(allOps))] + " b"
				}
				check(c, "when "+s)
				if r.Intn(8) == 0 {
					check(c, "trigger set v = "+s+" when @v")
				}
			}},
			nestPart(60_000, 1_500_000, check),
			wordPart(check),
			hugePart(90, 900, nil, check),
			sizedPart(12_000, 200_000, 5000, nil, check),
		}})
}

// neutral are operands that a simplification might drop; an empty one stands
// for the other operand again.
var neutral = []string{"0", "1", "-1", "2", "0.0", "1.0", "-0.0", "-0", "\"\"", "true", "false", "up", "*", "", "(0)", "(1)", "(true)", "(false)", "@v", "0%", "100%", "0km", "0s", "[0]", "[\"\"]", "0 .. 0", "1 .. 1", "00:00"}

// ---- C03

var opSpellings = []struct{ text, op string }{
	{"or", "or"}, {"and", "and"}, {"<", "<"}, {"<=", "<="}, {">", ">"}, {">=", ">="},
	{"eq", "eq"}, {"==", "=="}, {"!=", "!="}, {"not eq", "not eq"}, {"in", "in"}, {"not in", "not in"},
	{"nearby", "nearby"}, {"not nearby", "not nearby"}, {"intersects", "intersects"}, {"not intersects", "not intersects"},
	{"+", "+"}, {"-", "-"}, {"*", "*"}, {"/", "/"}, {"rem", "rem"}, {"mod", "rem"},
	{"OR", "or"}, {"And", "and"}, {"EQ", "eq"}, {"NOT  in", "not in"}, {"Not\nEq", "not eq"}, {"MOD", "rem"}, {"Nearby", "nearby"},
	{"NOT INTERSECTS", "not intersects"}, {"NOT\tNEARBY", "not nearby"}, {"Intersects", "intersects"}, {"IN", "in"}, {"REM", "rem"},
}

// chain checks one chain of operators over plain operands.
func (c *ctx) chain(r *rand.Rand, ops []int) {
	var b strings.Builder
	b.WriteString("trigger when ")
	operands := make([]*node, len(ops)+1)
	var chain []opAt
	atom := func(i int) *node {
		switch r.Intn(9) {
		case 0:
			fmt.Fprintf(&b, "%d", i+1)
			return nd("int", strconv.Itoa(i+1))
		case 1:
			fmt.Fprintf(&b, "-%d", i+1)
			return nd("int", strconv.Itoa(-i-1))
		case 2:
			fmt.Fprintf(&b, "@v%d", i)
			return nd("ref", fmt.Sprintf("v%d", i))
		case 3:
			fmt.Fprintf(&b, "(s%d)", i)
			return nd("paren", "", nd("selector", fmt.Sprintf("s%d{*}", i)))
		case 4:
			fmt.Fprintf(&b, "%d .. s%d", i+1, i)
			return nd("range", "", nd("int", strconv.Itoa(i+1)), nd("selector", fmt.Sprintf("s%d{*}", i)))
		case 5:
			b.WriteString("*")
			return nd("wildcard", "")
		}
		fmt.Fprintf(&b, "s%d", i)
		return nd("selector", fmt.Sprintf("s%d{*}", i))
	}
	for i := range operands {
		if i > 0 {
			o := opSpellings[ops[i-1]]
			b.WriteString(" " + o.text + " ")
			chain = append(chain, opAt{o.op, -1})
		}
		operands[i] = atom(i)
	}
	e := group(operands, chain)
	src := b.String()
	if r.Intn(3) == 0 { // inside parentheses
		at := strings.Index(src, "when ") + len("when ")
		k := 1 + r.Intn([]int{3, 30, 200}[r.Intn(3)])
		src = src[:at] + strings.Repeat("(", k) + src[at:] + strings.Repeat(")", k)
		for ; k > 0; k-- {
			e = nd("paren", "", e)
		}
	}
	want := nd("trigger", "", nd("when", "", e))
	if _, have := c.expect(src, want); have != nil {
		c.nontrivial(have.String())
		c.sample(src)
		c.max("operators in a chain", len(ops))
	}
}

func init() {
	k := len(opSpellings)
	each03 := func(c *ctx, src string) {
		if _, have, _ := c.verdict(src, true); have != nil {
			c.nontrivial(have.String())
		}
	}
	register(&property{id: "C03",
		rule: "chains of operators (all pairs and triples of spellings, random longer ones, nested parentheses) over operands of all kinds; the expected tree is split at the last operator of lowest precedence; non-trivial: distinct trees",
		need: []string{"accepted"},
		parts: []part{
			{"pairs", k + k*k, k + k*k, func(c *ctx, r *rand.Rand, i int) {
				if i < k {
					c.chain(r, []int{i})
				} else {
					i -= k
					c.chain(r, []int{i / k, i % k})
				}
			}},
			{"triples", k * k * k, k * k * k, func(c *ctx, r *rand.Rand, i int) { c.chain(r, []int{i / k / k, i / k % k, i % k}) }},
			{"long chains", 30_000, 600_000, func(c *ctx, r *rand.Rand, i int) {
				n := 4 + r.Intn(10)
				if r.Intn(50) == 0 {
					n = 100 + r.Intn(400)
				}
				ops := make([]int, n)
				for j := range ops {
					ops[j] = r.Intn(k)
				}
				c.chain(r, ops)
			}},
			{"generated", 100_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				o := stmtOpts{vars: 0, operands: 8}
				o.cond = func(x *gen) *node { return x.expr(2 + r.Intn(7)) }
				src, want, _ := statement(r, o, i%4)
				if _, have := c.expect(src, want); have != nil {
					c.kinds(have)
					c.nontrivial(have.String())
				}
			}},
			{"parentheses", 20_000, 300_000, func(c *ctx, r *rand.Rand, i int) {
				// a random binary tree with every node in parentheses keeps its shape
				var b strings.Builder
				n := 0
				var build func(d int) *node
				build = func(d int) *node {
					if d == 0 || r.Intn(4) == 0 {
						n++
						fmt.Fprintf(&b, "s%d", n)
						return nd("selector", fmt.Sprintf("s%d{*}", n))
					}
					extra := 0
					if r.Intn(10) == 0 {
						extra = r.Intn(20)
					}
					b.WriteString(strings.Repeat("(", extra+1))
					l := build(d - 1)
					o := opSpellings[r.Intn(k)]
					b.WriteString(" " + o.text + " ")
					rt := build(d - 1)
					b.WriteString(strings.Repeat(")", extra+1))
					t := nd("bin", o.op, l, rt)
					for ; extra >= 0; extra-- {
						t = nd("paren", "", t)
					}
					return t
				}
				b.WriteString("when ")
				t := build(1 + r.Intn(6))
				c.max("operators in a chain", n)
				if _, have := c.expect(b.String(), nd("trigger", "", nd("when", "", t))); have != nil {
					c.nontrivial(have.String())
				}
			}},
			nestPart(20_000, 500_000, each03),
			wordPart(each03),
			hugePart(30, 300, []string{"operators", "parens", "ints", "nested props"}, each03),
			sizedPart(4000, 60000, 2000, []string{"operators", "parens", "ints", "nested props"}, each03),
		}})
}

// ---- C04

var c04numbers = []string{
	"0", "00", "1", "7", "007", "42", "100", "400", "1023", "1024", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
	"9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615",
	"18446744073709551616", "99999999999999999999", strings.Repeat("9", 310), "1_000", "_1", "1_",
	"0.", "0.0", "1.", "1.0", "0.1", "0.5", "1.5", "3.14", "36.6", "99.999", "0.000001", "1.000000000000001", "123456789.987654321", "1.10", "00.50",
	"9007199254740993.0", "9223372036854775807.0", "9223372036854775808.0", "99999999999999999999.5", "0.00000000000000000000000000000001",
	"1" + strings.Repeat("0", 308) + ".0", "1" + strings.Repeat("0", 309) + ".0", strings.Repeat("1", 400) + ".5", "1.5_5", "2.2250738585072011", "1.7976931348623157",
	"0." + strings.Repeat("0", 307) + "3", "0." + strings.Repeat("0", 310) + "25", "0." + strings.Repeat("0", 323) + "5", "0." + strings.Repeat("0", 323) + "2", "0." + strings.Repeat("0", 340) + "1",
	"179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368.0",
	"4.35", "0.3", "2.675", "1.005", "8.41", "16.605", "12.345678901234567890123456789", "0x10", "0b1", "1e3", "1.5e3", ".5", "010",
}

var c04units = []string{
	"", "%", "PCT", "Pct", "pct", "bar", "Bar", "BAR", "baR", "psi", "Psi", "PSI", "pSi", "rm", "rM", "Rm", "RM", "M", "m", "rkm", "rKM", "Rkm", "RKM", "km", "Km", "KM", "kM",
	"kph", "Kph", "KPH", "kpH", "mph", "Mph", "MPH", "mPh", "c", "C", "f", "F", "h", "H", "s", "S", "ms", "MS", "h30m", "H30M", "m5s", "h1m1s", "s5", "h5", "us", "ns", "µs",
	"hm", "sm", "met", "hello", "seconds", "x", "k", "b", "p", "e5", "_", "K", "kmh", "bars", "psi2", "Cc", "h30", "m30ms", "s500ms", "h2h", "\"%\"", "\"C\"", "d", "w",
}

var c04signs = []string{"", "+", "-", "- ", "+\n", "--", "+-", "-+"}
var c04gaps = []string{"", " ", "\t\n"}

var c04contexts = []string{
	"when %s", "trigger when %s", "when a == %s", "when %s < b", "when (%s)", "when [%s]", "when [%[1]s, %[1]s]", "when [1, %s]", "when [1.5, %s]",
	"when %s .. 5", "when 5 .. %s", "when -1 .. %s", "when %s .. -1", "when %[1]s .. %[1]s", "when [1 .. %s]", "when [-5 .. %s, 3 .. 4]",
	"when a:%s", "when a:-1,%s", "when a:%s,-2", "when a{\"d\"}:%[1]s,%[1]s + 1",
	"trigger set v = %s; when a", "trigger set v = %s when a", "trigger set u = -1 v = %s; w = +1; when @v", "when 1 + %s", "when 1 - %s * -2",
	"when a repeat 1 every %s", "when a reset after %s", "when a repeat %s",
	"when point[1,2]:%s", "when line[[1,2]]:%s", "when point[1,%s]", "when point[%s,1]", "when polygon[[[%s,2]]]", "when -1 in %s", "when a in [-1 .. %s] and -3 < %s",
}

func init() {
	check := func(c *ctx, src string) {
		if _, have, _ := c.verdict(src, true); have != nil {
			c.kinds(have)
			c.nontrivial(have.String())
			c.sample(src)
		}
	}
	n := len(c04numbers) * len(c04units) * len(c04signs)
	each04 := func(c *ctx, src string) {
		if _, have, _ := c.verdict(src, true); have != nil {
			c.nontrivial(have.String())
		}
	}
	register(&property{id: "C04",
		rule: "numbers x unit spellings x signs x gaps in every syntactic position against exact rational arithmetic, and generated scalars with known values; non-trivial: distinct accepted statements",
		need: []string{"accepted", "rejected", "node int", "node float", "node percent", "node speed", "node distance", "node temperature", "node pressure", "node duration", "node string", "node bool"},
		parts: []part{
			{"product", n, n, func(c *ctx, r *rand.Rand, i int) {
				num := c04numbers[i%len(c04numbers)]
				i /= len(c04numbers)
				unit := c04units[i%len(c04units)]
				sign := c04signs[i/len(c04units)]
				k := 6
				if c.thorough() {
					k = 1000
				}
				for _, ci := range pickN(r, len(c04contexts), k) {
					for gi, gap := range c04gaps {
						if !c.thorough() && gi != r.Intn(len(c04gaps)) {
							continue
						}
						lit := sign + num + gap + unit
						text := c04contexts[ci]
						if strings.Contains(text, "%[1]s") {
							text = strings.ReplaceAll(text, "%[1]s", lit)
						}
						check(c, strings.ReplaceAll(text, "%s", lit))
					}
				}
			}},
			{"generated", 150_000, 3_000_000, func(c *ctx, r *rand.Rand, i int) {
				o := stmtOpts{vars: 3, operands: 4}
				k := scalarKinds[i%len(scalarKinds)]
				o.value = func(x *gen) *node { return x.scalar(k) }
				o.cond = func(x *gen) *node {
					switch x.r.Intn(5) {
					case 0:
						if k != "bool" {
							return x.array(k)
						}
					case 1:
						l := x.scalar(scalarKinds[x.r.Intn(len(scalarKinds))])
						x.rangeOp()
						h := x.scalar(k)
						return nd("range", "", l, h).at(l.pos, h.end)
					case 2:
						l := x.scalar(k)
						x.rangeOp()
						h := x.scalar(scalarKinds[x.r.Intn(len(scalarKinds))])
						return nd("range", "", l, h).at(l.pos, h.end)
					case 3:
						return x.selector(true)
					}
					return x.scalar(k)
				}
				src, want, _ := statement(r, o, r.Intn(4))
				if _, have := c.expect(src, want); have != nil {
					c.kinds(have)
					c.nontrivial(have.String())
				}
			}},
			{"random numbers", 200_000, 4_000_000, func(c *ctx, r *rand.Rand, i int) {
				x := newGen(r)
				num := x.numText()
				if r.Intn(3) == 0 {
					num = mutateBytes(r, num, 1)
				}
				unit := c04units[r.Intn(len(c04units))]
				if r.Intn(4) == 0 {
					unit = mutateBytes(r, unit, 1)
				}
				check(c, "trigger when "+c04signs[r.Intn(3)]+num+unit)
			}},
			{"strings", 60_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				x := newGen(r)
				q := `"` + x.stringText() + x.stringText() + `"`
				if r.Intn(3) == 0 {
					q = mutateBytes(r, q, 2)
				}
				ctxs := []string{"when a == %s", "trigger set v = %s; when a", "when [\"p\", %s, %s]", "when a{%s}", "when a:%s,\"z\"", "when %s .. %s"}
				check(c, strings.ReplaceAll(ctxs[r.Intn(len(ctxs))], "%s", q))
			}},
			nestPart(15_000, 500_000, each04),
			wordPart(each04),
			hugePart(60, 600, []string{"fraction", "string", "ints", "floats", "strings", "percents", "distances", "durations", "temperatures", "ranges", "id"}, each04),
			sizedPart(6000, 100000, 5000, []string{"digits", "fraction", "zeros", "underscores", "string", "signs", "ints", "floats", "strings", "percents", "distances", "durations", "temperatures", "ranges", "id"}, each04),
		}})
}

// pickN returns k of 0..n-1 in random order, or all of them.
func pickN(r *rand.Rand, n, k int) []int {
	p := r.Perm(n)
	if k < n {
		p = p[:k]
	}
	return p
}

// ---- C05 to C07: one construct at a time, well-formed and edited

func constructs(id, rule string, need, sized []string, build func(x *gen) *node, quick, thorough int, soups func(r *rand.Rand) string) {
	wrap := []string{"when %s", "trigger when %s", "when a intersects %s", "when (%s) and b", "when [%s]", "trigger set v = %s; when @v", "when %s .. %s", "when a:%s,%s", "when %s repeat 1"}
	emit := func(c *ctx, src string) {
		if _, have, _ := c.verdict(src, true); have != nil {
			c.kinds(have)
			c.nontrivial(have.String())
			c.sample(src)
		}
	}
	register(&property{id: id, rule: rule, need: append([]string{"accepted", "rejected"}, need...),
		parts: []part{
			{"generated", quick, thorough, func(c *ctx, r *rand.Rand, i int) {
				o := stmtOpts{vars: 2, operands: 3, value: build, cond: func(x *gen) *node {
					if x.r.Intn(3) == 0 {
						l := x.scalar("int")
						at := x.kw("intersects")
						rt := build(x)
						b := nd("bin", "intersects", l, rt).at(l.pos, rt.end)
						b.op = at
						return b
					}
					return build(x)
				}}
				src, want, _ := statement(r, o, i%4)
				if _, have := c.expect(src, want); have != nil {
					c.kinds(have)
					c.nontrivial(have.String())
				}
			}},
			{"edited", 3 * quick, 3 * thorough, func(c *ctx, r *rand.Rand, i int) {
				x := newGen(r)
				build(x)
				s, _, _ := layout(x.toks, r.Intn(3), r)
				for k := 0; k < 2; k++ {
					s = mutateTokens(r, s, 2, func() string {
						y := newGen(r)
						build(y)
						t, _, _ := layout(y.toks, 0, r)
						return t
					})
					emit(c, strings.ReplaceAll(wrap[r.Intn(len(wrap))], "%s", s))
				}
			}},
			{"all single edits", quick / 40, thorough / 40, func(c *ctx, r *rand.Rand, i int) {
				x := newGen(r)
				build(x)
				for len(x.toks) > 60 {
					x = newGen(r)
					build(x)
				}
				s, _, _ := layout(x.toks, 0, r)
				p := pieces(s)
				for k := range p {
					join := func(a ...string) { emit(c, "trigger when "+strings.Join(a, "")) }
					pre, post := strings.Join(p[:k], ""), strings.Join(p[k+1:], "")
					join(pre, post)
					join(pre, p[k], p[k], post)
					if k+1 < len(p) {
						join(pre, p[k+1], p[k], strings.Join(p[k+2:], ""))
					}
					join(pre)
					for j := 0; j < 8; j++ {
						w := " " + editWords[r.Intn(len(editWords))] + " "
						join(pre, w, post)
						join(pre, w, p[k], post)
					}
				}
			}},
			{"soup", 2 * quick, 2 * thorough, func(c *ctx, r *rand.Rand, i int) { emit(c, soups(r)) }},
			nestPart(6_000, 300_000, emit),
			wordPart(emit),
			hugePart(60, 600, sized, emit),
			sizedPart(quick/10, thorough/10, 3000, sized, emit),
		}})
}

var editWords = []string{",", ":", ";", "[", "]", "(", ")", "{", "}", "..", ".", "-", "+", "*", "1", "0", "1.5", "60", "13", "32", "2201", "2021", "25", "am", "pm", "mon", "jan", "x", "km", "10km",
	`"s"`, "@v", "=", "/", "in", "range", "point", "line", "polygon", "multipoint", "collection", "date", "time", "weekday", "month", "%", "rem", "and", "not", "%", "1_0", "9223372036854775808"}

func wordsSoup(r *rand.Rand, head []string, n int, words []string) string {
	var b strings.Builder
	b.WriteString(head[r.Intn(len(head))])
	for k := r.Intn(n); k >= 0; k-- {
		b.WriteString(words[r.Intn(len(words))])
		if r.Intn(3) == 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func init() {
	constructs("C05", "generated geometries with known coordinates, every single-token edit of them, random edits and bracket soups against the reference; non-trivial: distinct accepted statements",
		[]string{"node point", "node line", "node polygon", "node multi", "node collection", "node distance"},
		[]string{"line", "rings", "ring", "multipoint", "multiline", "multipolygon", "collection", "geometry prop"},
		func(x *gen) *node { return x.geometry() }, 40_000, 800_000,
		func(r *rand.Rand) string {
			return "trigger when " + wordsSoup(r, []string{"point[", "line[[", "polygon[[[", "multipoint[point[", "collection[line[[", "line[", "polygon[["}, 14,
				[]string{"[", "]", "]", ",", "1", "-2", "3.5", "1,2", "[1,2]", "]]", "[[", "],[", ":", ":5km", ":10M", ":5", "point[1,2]", "line[[1,2]]", ""})
		})
	constructs("C06", "generated calendar literals with known components, every single-token edit of them, random edits and soups with boundary values against the reference; non-trivial: distinct accepted statements",
		[]string{"node date", "node time", "node weekday", "node month", "array of date", "array of time", "array of weekday", "array of month", "node range"},
		[]string{"dates", "times", "weekdays", "months"},
		func(x *gen) *node { return x.calendar(calendarKinds[x.r.Intn(4)], x.r.Intn(3)) }, 40_000, 800_000,
		func(r *rand.Rand) string {
			switch r.Intn(4) {
			case 0:
				y := []int{0, 22, 1999, 2021, 2022, 2023, 2100, 2199, 2200, 2201, 9999}[r.Intn(11)]
				s := fmt.Sprintf("%d-%d-%d", y, r.Intn(15), r.Intn(34))
				if r.Intn(2) == 0 {
					s = fmt.Sprintf("%d-%02d-%02d%s%d-%02d-%02d", 2022+r.Intn(179), r.Intn(14), r.Intn(33), []string{",", "..", " range ", "-", " "}[r.Intn(5)], 2021+r.Intn(182), r.Intn(14), 1+r.Intn(32))
				}
				return "when date[" + s + "]"
			case 1:
				t := func() string {
					s := fmt.Sprintf("%02d:%02d", r.Intn(27), r.Intn(62))
					if r.Intn(2) == 0 {
						s += fmt.Sprintf(":%02d", r.Intn(62))
					}
					return s + []string{"", "", "am", "PM", " Am", " pm", "xm", "a m", "amm"}[r.Intn(9)]
				}
				s := t()
				for r.Intn(2) == 0 {
					s += []string{",", "..", ", ", ":", " "}[r.Intn(5)] + t()
				}
				return "when time[" + s + "]"
			case 2:
				w := []string{"mon", "TUE", "Wed", "thu", "fri", "sat", "sun", "jan", "monday", "m", "feb", "DEC", "sept", "1", "may", "june", "\"mon\"", "@mon", "mon.."}
				s := w[r.Intn(len(w))]
				for r.Intn(2) == 0 {
					s += []string{",", "..", ", ", " .. ", " "}[r.Intn(5)] + w[r.Intn(len(w))]
				}
				return "when " + []string{"weekday[", "month[", "weekday", "month [", "weekday[["}[r.Intn(5)] + s + []string{"]", "]", "]", "", "]]"}[r.Intn(5)]
			}
			return "when " + wordsSoup(r, []string{"date[", "time[", "weekday[", "month["}, 8,
				[]string{"2022", "-", "12", "31", ":", "10", "59", "am", "PM", "mon", "jan", ",", "..", "]", "2022-01-01", "10:30", "10:30:15", "fri", "dec", "]", ".", "[", "1.5", "2022 - 5 - 6"})
		})
	constructs("C07", "generated selectors, references and SET blocks with known content, every single-token edit of them, random edits and soups against the reference; non-trivial: distinct accepted statements",
		[]string{"node selector", "node ref", "node assign"},
		[]string{"ids", "props", "vars", "duplicate var", "id list of vars", "name", "id", "var name", "ref name", "selectors", "refs", "nested props"},
		func(x *gen) *node {
			if x.r.Intn(6) == 0 {
				return x.array("selector")
			}
			return x.selector(true)
		}, 30_000, 600_000,
		c07soup)
}

func c07soup(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		names := []string{"a", "A", "b", "aa", "k", "h", "m", "C", "every", "é"}
		vals := []string{"1", "-2.5", "\"s\"", "true", "@a", "@b", "[1,2]", "[@a]", "[@a,@b]", "a", "b:1", "(1 + 2)", "(@a)", "point[1,2]:5km", "5", "1..2", "10km", "[a,b]", "@a .. @b", "time[10:30]", "*", "weekday[mon,tue]"}
		var b strings.Builder
		b.WriteString("trigger set ")
		for k := r.Intn(5); k >= 0; k-- {
			b.WriteString(names[r.Intn(len(names))] + []string{" = ", "=", " = ", " == ", " ", " := "}[weighted(r, 10, 5, 5, 1, 1, 1)] + vals[r.Intn(len(vals))] + []string{"; ", " ", ";;", ", "}[weighted(r, 10, 5, 1, 1)])
		}
		return b.String() + []string{"when a", "when @a + @b", "set when a", "when", "a when a"}[weighted(r, 10, 10, 1, 1, 1)]
	}
	return "trigger when " + wordsSoup(r, []string{"sel{", "sel:", "sel", "@", "dev{\"1\","}, 8,
		[]string{"\"a\"", "\"b\"", "\"a\"", "*", ",", "}", "{", ":", "1", "-1", "5km", "x", "x{\"q\"}", "}", "@v", "@", "in", "SEL", "[1,2]", "\"\"", "é", "{}", "{*}", "1..2", "'a'"})
}

func weighted(r *rand.Rand, w ...int) int {
	t := 0
	for _, v := range w {
		t += v
	}
	k := r.Intn(t)
	for i, v := range w {
		if k -= v; k < 0 {
			return i
		}
	}
	return 0
}

// ---- C08

var c08words = []string{"repeat", "reset", "every", "after", "5", "0", "-3", "10m", "1.5h", "2.5", "10km", "@x", "\"s\"", "1h30m", "x"}

func init() {
	check := func(c *ctx, src string) {
		if _, have, _ := c.verdict(src, true); have != nil {
			c.kinds(have)
			c.nontrivial(have.String())
			c.sample(src)
		}
	}
	w := len(c08words)
	pow := func(n int) int {
		p := 1
		for ; n > 0; n-- {
			p *= w
		}
		return p
	}
	heads := []string{"when a ", "trigger when a == 5 ", "trigger set v = 5; when @v ", "when 5 ", "when a:1 ", "when (a) ", "when 1.5 "}
	register(&property{id: "C08",
		rule: "all sequences of clause words up to a length after several conditions, generated clauses with known values, and edits of them; non-trivial: distinct accepted statements",
		need: []string{"accepted", "rejected", "node count", "node interval", "node reset"},
		parts: []part{
			{"all sequences of 1 to 4", pow(1) + pow(2) + pow(3) + pow(4), pow(1) + pow(2) + pow(3) + pow(4), func(c *ctx, r *rand.Rand, i int) {
				n := 1
				for i >= pow(n) {
					i -= pow(n)
					n++
				}
				s := heads[r.Intn(len(heads))]
				for ; n > 0; n-- {
					s += c08words[i%w] + " "
					i /= w
				}
				check(c, s)
			}},
			{"sequences of 5", 60_000, pow(5), func(c *ctx, r *rand.Rand, i int) {
				if !c.thorough() {
					i = r.Intn(pow(5))
				}
				s := heads[r.Intn(len(heads))]
				for n := 5; n > 0; n-- {
					s += c08words[i%w] + " "
					i /= w
				}
				check(c, s)
			}},
			{"plausible", 120_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				num := []string{"0", "1", "5", "007", "9223372036854775807", "9223372036854775808", "1_0", "-1", "+1", "1.0", "5km", "5s", "\"5\"", "5h 6"}
				dur := []string{"1s", "5m", "10M", "1h30m", "1.5h", "0.5s", "10ms", "2.25s", "90s", "100h", "0s", "5", "5km", "-5s", "+5s", "5 m", "5 \n h30m", "1.s", "5S", "5H", "10us", "1e3s", "86400.5s", "1.000001s", "1s1us", "100h0m0s1ns", "0.000000001s", "1.0005s", "36h15ms", "59999ms", "5mm", "5h5", "\"5s\"", "@d", "9999999999h", "2562047h47m", "2562048h"}
				pick := func(l []string) string {
					if r.Intn(4) > 0 {
						return l[r.Intn(5)]
					}
					return l[r.Intn(len(l))]
				}
				s := heads[r.Intn(len(heads))]
				rep := []string{"repeat ", "REPEAT ", "repeat\n"}[r.Intn(3)]
				switch r.Intn(4) {
				case 0:
				case 1:
					s += rep + pick(num)
				case 2:
					s += rep + pick(num) + []string{" every ", " Every ", "every ", " after ", " EVERY\t"}[weighted(r, 5, 5, 5, 1, 5)] + pick(dur)
				case 3:
					s += rep
				}
				if r.Intn(3) > 0 {
					s += " reset" + []string{" after ", " AFTER ", " every ", " "}[weighted(r, 8, 8, 1, 1)] + pick(dur)
				}
				if r.Intn(10) == 0 {
					s += " " + c08words[r.Intn(w)]
				}
				check(c, s)
			}},
			{"related clauses", 40_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				// the same number, or the same time, in several places
				n := []int{r.Intn(10), r.Intn(100), r.Intn(5000), 60 * r.Intn(200), 3600 * r.Intn(100), someSize(r), r.Intn(1 << 40)}[r.Intn(7)]
				span := func() string {
					switch n := n + r.Intn(40)/38; {
					case r.Intn(4) == 0 && n%3600 == 0:
						return fmt.Sprintf("%dh", n/3600)
					case r.Intn(3) == 0 && n%60 == 0:
						return fmt.Sprintf("%dm", n/60)
					case r.Intn(3) == 0:
						return fmt.Sprintf("%dh%dm%ds", n/3600, n/60%60, n%60)
					case r.Intn(4) == 0:
						return fmt.Sprintf("%d%s", n, []string{"h", "m", "ms", "us", "ns"}[r.Intn(5)])
					case r.Intn(6) == 0:
						return fmt.Sprintf("%d.5s", n)
					default:
						return fmt.Sprintf("%ds", n)
					}
				}
				s := "when a "
				switch r.Intn(4) {
				case 0:
					s = fmt.Sprintf("trigger set v = %s; w = %d when @v ", span(), n)
				case 1:
					s = fmt.Sprintf("when a == %d and b == %s ", n, span())
				}
				if r.Intn(5) > 0 {
					s += fmt.Sprintf("repeat %d ", n+r.Intn(12)/11)
					if r.Intn(4) > 0 {
						s += "every " + span() + " "
					}
				}
				if r.Intn(3) > 0 {
					s += "reset after " + span()
				}
				check(c, s)
			}},
			{"generated", 60_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				src, want, _ := statement(r, stmtOpts{vars: 1, operands: 2, clauses: true}, i%4)
				if _, have := c.expect(src, want); have != nil {
					c.kinds(have)
					c.nontrivial(have.String())
				}
				check(c, mutateTokens(r, src, 2, nil))
			}},
			nestPart(10_000, 300_000, check),
			wordPart(check),
			sizedPart(1000, 20000, 3000, []string{"repeat digits"}, check),
		}})
}

// ---- C09

var c09alphabet = []string{"a", "1", "1.5", "-", "+", "*", "(", ")", "[", "]", "..", ",", ":", "==", "and", "\"s\"", "@v", "{", "}", "not in", "point", "time", "true", "km", ";"}

func init() {
	check := func(c *ctx, src string) {
		ref, have, _ := c.verdict(src, false)
		if have != nil {
			c.nontrivial("+" + ref.tree.String())
		} else if ref.tree == nil && !ref.deep && ref.fail < len(ref.toks) {
			// a rejection is characterised by what led to it
			lo := max(0, ref.fail-3)
			k := "-"
			for _, t := range ref.toks[lo : ref.fail+1] {
				k += t.k + " "
			}
			c.nontrivial(k)
		}
	}
	w := len(c09alphabet)
	pow := func(n int) int {
		p := 1
		for ; n > 0; n-- {
			p *= w
		}
		return p
	}
	lexical := []string{`"open`, `"a\q"`, `"\x4"`, `"\u12"`, "\"a\nb\"", "\x00", "\xff", "\xc3", "\"\x00\"", "\"\xff\"", "a\x00b", "a\xffb", "#", "$", "'", "`", "\\", "!", "not", "~", "\ufeff", "\u200b", "\u00a0", "\f", "\v", "//x", "/*x*/"}
	register(&property{id: "C09",
		rule: "all token sequences up to a length, every single edit and random double edits of generated statements, lexical errors at every token boundary; verdict against the reference recogniser; non-trivial: distinct accepted statements plus distinct token contexts of the rejections",
		need: []string{"accepted", "rejected", "lexical errors placed"},
		parts: []part{
			{"all sequences of 1 to 3", pow(1) + pow(2) + pow(3), pow(1) + pow(2) + pow(3), func(c *ctx, r *rand.Rand, i int) {
				n := 1
				for i >= pow(n) {
					i -= pow(n)
					n++
				}
				s := ""
				for ; n > 0; n-- {
					s += c09alphabet[i%w] + " "
					i /= w
				}
				check(c, "when "+s)
				check(c, "trigger set v = "+s+" when a")
				check(c, "when a "+s)
				check(c, "when "+s+" reset after 5s")
			}},
			{"sequences of 4", 200_000, pow(4), func(c *ctx, r *rand.Rand, i int) {
				if !c.thorough() {
					i = r.Intn(pow(4))
				}
				s := ""
				for n := 4; n > 0; n-- {
					s += c09alphabet[i%w] + " "
					i /= w
				}
				check(c, "when "+s)
				check(c, "when a == "+s)
			}},
			{"random sequences", 300_000, 6_000_000, func(c *ctx, r *rand.Rand, i int) {
				check(c, soup(r, 1+r.Intn(12)))
			}},
			nestPart(120_000, 3_000_000, check),
			{"rows", 150_000, 4_000_000, func(c *ctx, r *rand.Rand, i int) { check(c, rowText(r)) }},
			{"mistakes", 20_000, 200_000, func(c *ctx, r *rand.Rand, i int) { check(c, mistaken(r)) }},
			{"many lexical errors", 400, 6000, func(c *ctx, r *rand.Rand, i int) {
				n := 1<<uint(r.Intn(18)) + []int{-1, 0, 0, 1}[r.Intn(4)]
				bad := strings.Repeat([]string{"\x00", "\xff", "\xc3", "\x00\xff"}[r.Intn(4)], n)
				esc := strings.Repeat([]string{`\q`, `\x`, `\8`, `\u12`}[r.Intn(4)], n)
				src, _, _ := statement(r, stmtOpts{vars: 2, operands: 2, clauses: true}, r.Intn(2))
				p := pieces(src)
				k := r.Intn(len(p) + 1)
				c.max("lexical errors", n)
				check(c, src+" //"+bad)
				check(c, src+" /*"+bad+"*/")
				check(c, strings.Join(p[:k], "")+" /*"+bad+"*/ "+strings.Join(p[k:], ""))
				check(c, "when a == \""+esc+"\"")
				check(c, "when a{\"x\",\""+esc+bad+"\"}")
			}},
			{"single edits", 1500, 40_000, func(c *ctx, r *rand.Rand, i int) {
				s, _, toks := statement(r, stmtOpts{vars: 2, operands: 3, clauses: true}, r.Intn(2))
				if len(toks) > 80 {
					return
				}
				p := pieces(s)
				for k := range p {
					pre, post := strings.Join(p[:k], ""), strings.Join(p[k+1:], "")
					check(c, pre+post)
					check(c, pre+p[k]+" "+p[k]+post)
					check(c, pre)
					if k+1 < len(p) {
						check(c, pre+p[k+1]+" "+p[k]+strings.Join(p[k+2:], ""))
					}
					for j := 0; j < 6; j++ {
						w := " " + word(r) + " "
						check(c, pre+w+post)
						check(c, pre+w+p[k]+post)
					}
				}
			}},
			{"double edits", 300_000, 6_000_000, func(c *ctx, r *rand.Rand, i int) { check(c, nearMiss(r)) }},
			{"lexical errors", 3000, 60_000, func(c *ctx, r *rand.Rand, i int) {
				s, _, toks := statement(r, stmtOpts{vars: 2, operands: 3, clauses: true}, 0)
				if len(toks) > 80 {
					return
				}
				p := pieces(s)
				for k := 0; k <= len(p); k++ {
					l := lexical[r.Intn(len(lexical))]
					c.count("lexical errors placed")
					sep := []string{" ", ""}[r.Intn(2)]
					check(c, strings.Join(p[:k], "")+sep+l+sep+strings.Join(p[k:], ""))
				}
				// inside a string, and as the whole text
				for k, q := range p {
					if strings.HasPrefix(strings.TrimLeft(q, " "), `"`) {
						b := mutateBytes(r, q, 2)
						check(c, strings.Join(p[:k], "")+b+strings.Join(p[k+1:], ""))
					}
				}
			}},
			{"bytes", 200_000, 4_000_000, func(c *ctx, r *rand.Rand, i int) {
				s, _, _ := statement(r, anyStmt, r.Intn(3))
				check(c, mutateBytes(r, s, 3))
			}},
			{"evolved", 8, 160, func(c *ctx, r *rand.Rand, i int) { c.evolve(r, 12000, func(s string) { check(c, s) }) }},
			wordPart(check),
			hugePart(90, 900, nil, check),
			sizedPart(8000, 150000, 5000, nil, check),
		}})
}
