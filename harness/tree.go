package main

// A neutral description of a statement, built both by the reference parser
// (and the generator) and from the statement the real parser returns.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type node struct {
	k    string
	v    string
	kids []*node
	pos  int // first byte, -1 when the node has no span of its own
	end  int // last byte
	op   int // position of the operator or assignment sign, -1 if none
}

func nd(k, v string, kids ...*node) *node {
	return &node{k: k, v: v, kids: kids, pos: -1, end: -1, op: -1}
}

func (n *node) at(pos, end int) *node { n.pos, n.end = pos, end; return n }

func (n *node) write(b *strings.Builder, spans bool) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	b.WriteByte('(')
	b.WriteString(n.k)
	if n.v != "" {
		b.WriteByte(' ')
		b.WriteString(n.v)
	}
	if spans && n.pos >= 0 {
		fmt.Fprintf(b, " @%d-%d", n.pos, n.end)
		if n.op >= 0 {
			fmt.Fprintf(b, "^%d", n.op)
		}
	}
	for _, k := range n.kids {
		b.WriteByte(' ')
		k.write(b, spans)
	}
	b.WriteByte(')')
}

func (n *node) String() string { var b strings.Builder; n.write(&b, false); return b.String() }
func (n *node) spans() string  { var b strings.Builder; n.write(&b, true); return b.String() }

// each calls f for n and everything below it, parents first.
func (n *node) each(f func(*node)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.kids {
		k.each(f)
	}
}

// equalTree compares without building text; spans are ignored.
func equalTree(a, b *node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.k != b.k || a.v != b.v || len(a.kids) != len(b.kids) {
		return false
	}
	for i := range a.kids {
		if !equalTree(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

func ftoa(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

// diffTree describes the first difference of two trees.
func diffTree(have, want *node, spans bool) string {
	if have == nil || want == nil {
		if have == want {
			return ""
		}
		return fmt.Sprintf("have %s, want %s", clip(have.String()), clip(want.String()))
	}
	if have.k != want.k || have.v != want.v {
		return fmt.Sprintf("have (%s %s), want (%s %s)", have.k, clip(have.v), want.k, clip(want.v))
	}
	if spans && (have.pos != want.pos || have.end != want.end || have.op != want.op) {
		return fmt.Sprintf("(%s %s): have span %d-%d op %d, want %d-%d op %d", have.k, clip(have.v), have.pos, have.end, have.op, want.pos, want.end, want.op)
	}
	if len(have.kids) != len(want.kids) {
		return fmt.Sprintf("(%s %s): have %d children, want %d", have.k, clip(have.v), len(have.kids), len(want.kids))
	}
	for i := range have.kids {
		if d := diffTree(have.kids[i], want.kids[i], spans); d != "" {
			return d
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:120] + "..." + s[len(s)-30:]
	}
	return s
}

func selectorValue(ident string, wildcard bool, args []string) string {
	set := map[string]bool{}
	for _, a := range args {
		set[a] = true
	}
	u := make([]string, 0, len(set))
	for a := range set {
		u = append(u, strconv.Quote(a))
	}
	sort.Strings(u)
	w := ""
	if wildcard {
		w = "*"
	}
	return ident + "{" + w + strings.Join(u, ",") + "}"
}

func pointsValue(pts [][2]float64) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, p := range pts {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(ftoa(p[0]) + "," + ftoa(p[1]))
	}
	b.WriteByte(']')
	return b.String()
}

func ringsValue(rings [][][2]float64) string {
	s := "["
	for _, r := range rings {
		s += pointsValue(r)
	}
	return s + "]"
}
