package main

// Monitors of positions: C19 (errors), C20 (spans).

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	g "github.com/mmadfox/go-geoql-parser"
)

// rejected checks the error Parse returns for a rejected text.
func (c *ctx) rejected(src string) (e *g.Error, ref refResult) {
	_, err, ok := c.parse(src)
	if !ok || err == nil {
		return
	}
	c.eval()
	c.count("rejections")
	e, is := err.(*g.Error)
	if !is || e == nil {
		c.fail(src, "the error is a %T: %v", err, err)
		return nil, ref
	}
	if e.Offset < 0 || e.Offset > len(src) {
		c.fail(src, "error offset %d, input of %d bytes", e.Offset, len(src))
		return nil, ref
	}
	if e.Msg != src[:e.Offset] {
		c.fail(src, "error message text is %q, the input up to offset %d is %q", clip(e.Msg), e.Offset, clip(src[:e.Offset]))
		return nil, ref
	}
	if e.Error() == "" {
		c.fail(src, "empty error text")
	}
	ref = refParse(src)
	if ref.tree != nil || ref.deep || len(ref.toks) > 900_000 {
		c.count("not rejected by the reference") // C09 decides that
		return
	}
	if off := ref.failOff; e.Offset < off {
		c.fail(src, "error at offset %d, but everything before %s at %d can start a statement", e.Offset, describe(ref), off)
		return nil, ref
	}
	located := false
	for _, t := range ref.toks {
		if t.off == e.Offset {
			if located = true; t.raw != e.Lit && bare(t.raw) != bare(e.Lit) {
				c.fail(src, "the token at offset %d is %q, the error's literal %q", e.Offset, clip(t.raw), clip(e.Lit))
				return nil, ref
			}
			c.count("literals compared")
			break
		}
	}
	if !located {
		c.fail(src, "no token starts at the error's offset %d", e.Offset)
		return nil, ref
	}
	c.max("distance behind the failing token", e.Offset-ref.toks[ref.fail].off)
	if e.Offset == ref.toks[ref.fail].off {
		c.count("exactly at the failing token")
	}
	at := ref.toks[ref.fail]
	prev := ""
	if ref.fail > 0 {
		prev = ref.toks[ref.fail-1].k
	}
	c.nontrivial(prev + "|" + at.k)
	return
}

var gapText = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*|[ \t\r\n]+`)

// bare is s, an operator of two tokens, without what stands between them.
func bare(s string) string { return gapText.ReplaceAllString(s, "") }

var illegalChars = []string{"#", "$", "?", "^", "~", "\\", "&", "|", "€", "\u2028", "🚗", "\x01", "\x7f", "!", "'a'", "`r`"}

func init() {
	each19 := func(c *ctx, src string) { c.rejected(src) }
	register(&property{id: "C19", need: []string{"rejections", "illegal characters located", "cuts"},
		rule: "every rejection of nearly valid, cut and hostile texts: the offset and text of the error against the input and against the first token at which the reference parser fails; an illegal character at every token of valid statements must be located exactly; non-trivial: distinct pairs of failing token kind and the one before it",
		parts: []part{
			{"texts", 250_000, 6_000_000, func(c *ctx, r *rand.Rand, i int) {
				src := anyText(r)
				if _, _ = c.rejected(src); i < 40 {
					c.sample(src)
				}
			}},
			{"near misses", 250_000, 6_000_000, func(c *ctx, r *rand.Rand, i int) { c.rejected(nearMiss(r)) }},
			{"cuts", 8_000, 200_000, func(c *ctx, r *rand.Rand, i int) {
				src, _, _ := statement(r, anyStmt, r.Intn(4))
				for _, k := range pickN(r, len(src), 40) {
					c.rejected(src[:k])
					c.count("cuts")
				}
			}},
			{"illegal characters", 12_000, 300_000, func(c *ctx, r *rand.Rand, i int) {
				src, _, _ := statement(r, anyStmt, r.Intn(4))
				ref := refParse(src)
				if ref.tree == nil || ref.deep {
					return
				}
				for _, k := range pickN(r, len(ref.toks), 20) {
					ch := illegalChars[r.Intn(len(illegalChars))]
					at := ref.toks[k].off
					text := src[:at] + " " + ch
					if r.Intn(2) == 0 {
						text += " " + src[at:]
					}
					if k > 0 && at > 0 && strings.LastIndex(src[:at], "//") > strings.LastIndex(src[:at], "\n") {
						continue // would be inside a comment
					}
					got := refParse(text)
					if got.tree != nil || got.toks[got.fail].off != at+1 {
						c.count("not at the illegal character")
						continue
					}
					e, _ := c.rejected(text)
					if e == nil {
						continue
					}
					c.count("illegal characters located")
					if e.Offset != at+1 {
						c.fail(text, "illegal character %q at offset %d is reported at %d", ch, at+1, e.Offset)
						return
					}
				}
			}},
			{"soup", 100_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) { c.rejected(soup(r, 1+r.Intn(12))) }},
			{"long", 200, 4000, func(c *ctx, r *rand.Rand, i int) {
				// failures behind the scanner's buffer
				pad := strings.Repeat([]string{" ", "\n", "a + ", "(1) and ", "\"é\" == ", "/* c */"}[i%6], 100+r.Intn(2000))
				src := "when " + pad + []string{"#", ")", "", "a b", "\"", "1 ..", "[1,]", "9999999999999999999999"}[r.Intn(8)]
				c.rejected(src)
			}},
			{"long tokens", 400, 8000, func(c *ctx, r *rand.Rand, i int) {
				// the offending token, or the one before it, is long
				n := 500 << uint(r.Intn(10))
				n += r.Intn(n)
				tok := ""
				switch i % 4 {
				case 0:
					tok = "\"" + strings.Repeat("bé ", n/3) + "\""
				case 1:
					tok = strings.Repeat("longname", n/8)
				case 2:
					tok = strings.Repeat("123_4", min(n, 20_000)/5) + []string{"", ".5"}[r.Intn(2)]
				case 3:
					tok = "@ " + strings.Repeat("ж", n/2)
				}
				c.max("token size", len(tok))
				c.rejected("trigger " + []string{"when x ", "set ", "when ", "when [x y] ", "when x == 1 ", "repeat ", "when dev:", "when x + ("}[r.Intn(8)] + tok + []string{"", " y", " )", " 2", "#"}[r.Intn(5)])
			}},
			{"far", 40, 400, func(c *ctx, r *rand.Rand, i int) {
				// failures at every order of magnitude of the offset
				n := 1 << uint(8+i%16)
				n += r.Intn(n)
				pad := []string{" ", "\n", "(1) and ", "\"é\" == ", "/* c */", "not_a_number + "}[r.Intn(6)]
				src := "trigger when " + strings.Repeat(pad, n/len(pad)) + []string{"#", ")", "", "x y", "\"", "1 ..", "[1,]", "9999999999999999999999"}[r.Intn(8)]
				c.max("offset", len(src))
				c.rejected(src)
			}},
			{"evolved", 8, 100, func(c *ctx, r *rand.Rand, i int) {
				c.evolve(r, 8000, func(src string) { c.rejected(src) })
			}},
			nestPart(15_000, 500_000, each19),
			wordPart(each19),
			hugePart(90, 900, nil, each19),
			sizedPart(4000, 80000, 4000, nil, each19),
		}})
}

// ---- C20

// spanned compares the spans of a parsed statement with those of the tree.
func (c *ctx) spanned(src string, st g.Statement, want *node) {
	c.eval()
	have := convStmt(st)
	if !equalTree(have, want) {
		c.count("parse differs") // C02 to C08 decide that
		return
	}
	if d := diffTree(have, want, true); d != "" {
		c.fail(src, "%s", d)
		return
	}
	c.nested(src, have)
	// the type of a node with the token that follows it
	c.add("spans", countNodes(have))
	have.each(func(n *node) {
		if n.pos < 0 {
			return
		}
		gap, next := n.end+1, "end"
		for gap < len(src) && strings.IndexByte(" \t\r\n", src[gap]) >= 0 {
			gap++
		}
		if gap < len(src) {
			next = src[gap : gap+1]
		}
		c.nontrivial(fmt.Sprintf("%s %v %s %q", n.k, len(n.kids), next, src[n.pos]))
	})
	c.kinds(have)
}

func countNodes(n *node) int {
	k := 0
	n.each(func(*node) { k++ })
	return k
}

// nested checks that spans lie in the input and in the parent's span.
func (c *ctx) nested(src string, n *node) {
	var walk func(n *node, lo, hi int)
	walk = func(n *node, lo, hi int) {
		if n.pos >= 0 {
			if n.pos < lo || n.end > hi || n.pos > n.end {
				c.fail(src, "(%s %s) spans %d-%d, its parent %d-%d", n.k, clip(n.v), n.pos, n.end, lo, hi)
				return
			}
			if n.op >= 0 && (n.op < n.pos || n.op > n.end) {
				c.fail(src, "(%s %s) spans %d-%d, its operator is at %d", n.k, clip(n.v), n.pos, n.end, n.op)
				return
			}
			lo, hi = n.pos, n.end
		}
		last := -1
		for _, k := range n.kids {
			walk(k, lo, hi)
			if k.pos >= 0 {
				if k.pos <= last {
					c.fail(src, "(%s %s) starts at %d, before its predecessor ends at %d", k.k, clip(k.v), k.pos, last)
				}
				last = k.end
			}
		}
	}
	walk(n, 0, len(src)-1)
}

func (c *ctx) spansOf(src string) {
	st, err, ok := c.parse(src)
	if !ok || err != nil || st == nil {
		return
	}
	ref := refParse(src)
	if ref.tree == nil || ref.deep {
		c.count("rejected by the reference")
		return
	}
	c.spanned(src, st, ref.tree)
}

func init() {
	need := []string{"spans"}
	for _, k := range []string{"int", "float", "percent", "speed", "distance", "temperature", "pressure", "duration", "string", "bool", "date", "time", "weekday", "month",
		"selector", "ref", "assign", "paren", "wildcard", "range", "point", "line", "polygon", "multi", "collection", "count", "interval", "reset", "bin", "trigger"} {
		need = append(need, "node "+k)
	}
	each20 := func(c *ctx, src string) { c.spansOf(src) }
	register(&property{id: "C20", need: need,
		rule: "start, end and operator positions of every node against the spans the generator laid out and against the reference parser, over all layouts, accepted edits and long texts, and containment in the parent; non-trivial: distinct combinations of node kind, number of members, first character and following character",
		parts: []part{
			{"generated", 200_000, 5_000_000, func(c *ctx, r *rand.Rand, i int) {
				src, want, _ := statement(r, anyStmt, i%4)
				st, err, ok := c.parse(src)
				if !ok || err != nil || st == nil {
					c.count("rejected")
					return
				}
				c.spanned(src, st, want)
				c.sample(src)
			}},
			{"re-laid", 100_000, 2_500_000, func(c *ctx, r *rand.Rand, i int) {
				// the same statement in other layouts, moved by leading space
				src, _, _ := statement(r, anyStmt, 0)
				for k := 0; k < 3; k++ {
					c.spansOf(strings.Repeat(" ", r.Intn(3)*r.Intn(400)) + relay(src, r.Intn(4), r))
				}
			}},
			{"edits", 200_000, 5_000_000, func(c *ctx, r *rand.Rand, i int) { c.spansOf(nearMiss(r)) }},
			{"literals", 100_000, 2_500_000, func(c *ctx, r *rand.Rand, i int) { c.spansOf(literalText(r)) }},
			{"long", 20_000, 400_000, func(c *ctx, r *rand.Rand, i int) { c.spansOf(longText(r)) }},
			{"products of values", len(c04numbers) * len(c04units) * len(c04signs), len(c04numbers) * len(c04units) * len(c04signs), func(c *ctx, r *rand.Rand, i int) {
				lit := c04signs[i%len(c04signs)] + c04numbers[i/len(c04signs)%len(c04numbers)] + c04gaps[r.Intn(len(c04gaps))] + c04units[i/len(c04signs)/len(c04numbers)]
				for _, k := range pickN(r, len(c04contexts), 3) {
					c.spansOf(strings.ReplaceAll(strings.ReplaceAll(c04contexts[k], "%[1]s", lit), "%s", lit))
				}
			}},
			{"across the buffer", 3000, 30_000, func(c *ctx, r *rand.Rand, i int) {
				src, _, _ := statement(r, anyStmt, r.Intn(4))
				c.spansOf(strings.Repeat([]string{" ", "\n", "/**/"}[r.Intn(3)], 900+r.Intn(200)) + src)
			}},
			{"evolved", 8, 100, func(c *ctx, r *rand.Rand, i int) {
				c.evolve(r, 8000, func(src string) { c.spansOf(src) })
			}},
			nestPart(10_000, 300_000, each20),
			wordPart(each20),
			hugePart(90, 900, nil, each20),
			sizedPart(5000, 80000, 5000, nil, each20),
		}})
}
