package main

// Monitor of the exported names and precedences: C25.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	g "github.com/mmadfox/go-geoql-parser"
)

// firstToken is the first token of src and whether it is the only one.
func (c *ctx) firstToken(src string) (tok g.Token, lit string, only, ok bool) {
	ok = c.guard("Tokenizer", src, len(src), func() {
		t := g.NewTokenizer(strings.NewReader(src))
		tok, lit = t.Scan()
		next, _ := t.Scan()
		only = next == g.EOF && t.ErrorCount() == 0 && t.Err() == nil
	})
	return
}

// named checks the name of one token value.
func (c *ctx) named(id g.Token) {
	var name string
	if !c.guard("KeywordString", fmt.Sprint(int(id)), 1, func() { name = g.KeywordString(id) }) {
		return
	}
	c.eval()
	c.digest(name)
	if name == "" {
		c.count("token without a name")
		return
	}
	c.count("token with a name")
	c.nontrivial(fmt.Sprint("token ", int(id)))
	for _, s := range []string{name, strings.ToUpper(name), " " + strings.ReplaceAll(name, " ", " \n ") + "\t"} {
		tok, lit, only, ok := c.firstToken(s)
		if !ok {
			return
		}
		if tok != id || lit != name || !only {
			c.fail(s, "KeywordString(%d) is %q, and %q is read as token %d %q (alone: %v)", int(id), name, s, int(tok), lit, only)
			return
		}
	}
}

// unitName checks the name of one unit.
func (c *ctx) unitName(u g.Unit) {
	var name string
	if !c.guard("Unit.String", fmt.Sprint(int(u)), 1, func() { name = u.String() }) {
		return
	}
	c.eval()
	c.digest(name)
	var have g.Unit
	found := false
	for _, src := range []string{"when 1" + name, "when time[1:00" + name + "]"} {
		st, err, ok := c.parse(src)
		if !ok {
			return
		}
		if err != nil {
			continue
		}
		if t, is := st.(*g.Trigger); is && t != nil && t.When != nil {
			below(t.When, func(e, _ g.Expr) {
				if _, is := e.(*g.PercentTyp); is {
					have, found = g.Percent, true
				}
				if f := reflect.ValueOf(e).Elem().FieldByName("U"); f.IsValid() && f.Uint() != 0 {
					have, found = g.Unit(f.Uint()), true
				}
			})
		}
	}
	switch {
	case u > g.Unknown && u <= g.PM:
		c.count("unit with a name")
		c.nontrivial(fmt.Sprint("unit ", int(u)))
		if !found || have != u {
			c.fail(name, "the name of unit %d is %q, which is read as unit %d (%v)", int(u), name, int(have), found)
		}
	default:
		c.count("unit without a name")
		if name != "?" || found {
			c.fail(name, "the name of the unknown unit %d is %q", int(u), name)
		}
	}
}

// signName checks the name of one sign.
func (c *ctx) signName(s g.Sign) {
	var name string
	if !c.guard("Sign.String", fmt.Sprint(int(s)), 1, func() { name = s.String() }) {
		return
	}
	c.eval()
	c.digest(name)
	if s != g.Plus && s != g.Minus {
		if name != "" {
			c.fail(name, "the name of no sign %d is %q", int(s), name)
		}
		return
	}
	c.count("sign with a name")
	st, err, ok := c.parse("when " + name + "1C")
	if !ok {
		return
	}
	if t, is := st.(*g.Trigger); err == nil && is {
		if d, is := t.When.(*g.TemperatureTyp); is && d.Vec == s {
			return
		}
	}
	c.fail(name, "the name of sign %d is %q, which is not read as that sign", int(s), name)
}

// ranked checks that the precedence of two tokens is that of the operators in
// a condition.
func (c *ctx) ranked(a, b g.Token, pad string) {
	pa, pb := a.Precedence(), b.Precedence()
	sa, sb := g.KeywordString(a), g.KeywordString(b)
	c.eval()
	c.digest(fmt.Sprint(pa, pb))
	if pa > 0 && sa == "" || pa < 0 {
		c.fail("", "token %d has precedence %d and the name %q", int(a), pa, sa)
		return
	}
	if sa == "" {
		return
	}
	src := "when x " + sa + " y" + pad
	st, err, ok := c.parse(src)
	if !ok {
		return
	}
	t, is := st.(*g.Trigger)
	bin := false
	if err == nil && is {
		var e *g.BinaryExpr
		e, bin = t.When.(*g.BinaryExpr)
		bin = bin && e.Op == a
	}
	if bin != (pa > 0) {
		c.fail(src, "token %q has precedence %d, and is read as an operator: %v", sa, pa, bin)
		return
	}
	if pa == 0 || pb == 0 || sb == "" {
		return
	}
	src = "when x " + sa + " y " + sb + " z" + pad
	if st, err, ok = c.parse(src); !ok {
		return
	}
	t, is = st.(*g.Trigger)
	if err != nil || !is {
		c.fail(src, "rejected: %s", errText(err))
		return
	}
	top, is := t.When.(*g.BinaryExpr)
	if !is {
		c.fail(src, "the condition is a %T", t.When)
		return
	}
	left, lis := top.Left.(*g.BinaryExpr)
	right, ris := top.Right.(*g.BinaryExpr)
	good := lis && !ris && left.Op == a && top.Op == b
	if pa < pb {
		good = ris && !lis && right.Op == b && top.Op == a
	}
	if !good {
		c.fail(src, "with precedences %d and %d the condition is grouped otherwise", pa, pb)
		return
	}
	c.count("pairs grouped")
	c.sample(src)
	c.nontrivial(sa + " " + sb)
}

// namedTokens checks the literals of all tokens of src against their names.
func (c *ctx) namedTokens(src string) {
	limit := len(src) + 10
	c.guard("Tokenizer", src, len(src), func() {
		t := g.NewTokenizer(strings.NewReader(src))
		for n := 0; n < limit; n++ {
			tok, lit := t.Scan()
			if tok == g.EOF {
				break
			}
			if name := g.KeywordString(tok); name != "" {
				c.count("named literals")
				if lit != name && (tok != g.REM || lit != "mod") {
					c.fail(src, "a token %d is named %q and has the literal %q", int(tok), name, lit)
					return
				}
			}
		}
	})
	c.eval()
}

func init() {
	const tokens = 140
	register(&property{id: "C25", twice: true, need: []string{"token with a name", "token without a name", "unit with a name", "unit without a name", "sign with a name", "pairs grouped", "named literals"},
		rule:  "the name of every token value from -70 to 69 and beyond, of all 256 units and signs, and the precedences of all pairs, against what the tokenizer and Parse read; literals of random texts against the names; at random points of a history of other calls, in two processes; non-trivial: distinct tokens, units and pairs of operators",
		notes: []string{"token values far outside the enumeration are sampled"},
		parts: []part{
			{"tokens", 4 * tokens, 40 * tokens, func(c *ctx, r *rand.Rand, i int) {
				c.between(r)
				c.named(g.Token(i%tokens - 70))
			}},
			{"far tokens", 200, 5000, func(c *ctx, r *rand.Rand, i int) {
				v := r.Int63() >> uint(r.Intn(63))
				for _, k := range []int64{v, -v, math.MaxInt, math.MinInt, 256 + v%64, 65536 + v%64, 1<<32 + v%64} {
					var name string
					var prec int
					if !c.guard("KeywordString", fmt.Sprint(k), 1, func() { name, prec = g.KeywordString(g.Token(k)), g.Token(k).Precedence() }) {
						return
					}
					c.eval()
					if (k < 0 || k > 200) && (name != "" || prec != 0) {
						c.fail(fmt.Sprint(k), "the value %d, no token, has the name %q and precedence %d", k, name, prec)
					}
				}
			}},
			{"units and signs", 512, 5120, func(c *ctx, r *rand.Rand, i int) {
				c.between(r)
				c.unitName(g.Unit(i))
				c.signName(g.Sign(i))
			}},
			{"pairs", 70 * 70, 10 * 70 * 70, func(c *ctx, r *rand.Rand, i int) {
				pad := ""
				if r.Intn(3) == 0 {
					pad = " repeat 5 every 10s"
				}
				if r.Intn(8) == 0 {
					c.between(r)
				}
				c.ranked(g.Token(i%70), g.Token(i/70%70), pad)
			}},
			{"texts", 30_000, 600_000, func(c *ctx, r *rand.Rand, i int) { c.namedTokens(chunkText(r)) }},
			wordPart(func(c *ctx, src string) { c.namedTokens(src) }),
			sizedPart(600, 10_000, 2000, nil, func(c *ctx, src string) { c.namedTokens(src) }),
		}})
}

// between makes some other calls.
func (c *ctx) between(r *rand.Rand) {
	for k := r.Intn(4); k > 0; k-- {
		src := anyText(r)
		st, err, ok := c.parse(src)
		if !ok || err != nil || st == nil {
			continue
		}
		c.format(src, st)
		c.guard("CheckType", src, len(src), func() { g.CheckType(st, formDict) })
	}
}
