package main

// Monitor of purity and independence of results: C22.

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	g "github.com/mmadfox/go-geoql-parser"
)

// area is a piece of mutable memory reachable from a value.
type area struct {
	lo, hi uintptr
	what   string
}

// areas collects the mutable memory reachable from v, unexported fields
// included: pointed-to values, backing arrays up to their capacity, and maps.
// It reports a piece that is reached twice.
func areas(v reflect.Value, path string, into *[]area, seen map[uintptr]string) (twice string) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			return areas(v.Elem(), path, into, seen)
		}
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 {
			return ""
		}
		p := v.Pointer()
		if w, ok := seen[p]; ok {
			return w + " and " + path
		}
		seen[p] = path
		*into = append(*into, area{p, p + v.Type().Elem().Size(), path})
		return areas(v.Elem(), path, into, seen)
	case reflect.Map:
		if v.IsNil() {
			return ""
		}
		p := v.Pointer()
		if w, ok := seen[p]; ok {
			return w + " and " + path
		}
		seen[p] = path
		*into = append(*into, area{p, p + 8, path})
		for _, k := range v.MapKeys() {
			if t := areas(v.MapIndex(k), path+"{}", into, seen); t != "" {
				return t
			}
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			p := v.Pointer()
			*into = append(*into, area{p, p + uintptr(v.Cap())*v.Type().Elem().Size(), path + "[]"})
		}
		for i := 0; i < v.Len(); i++ {
			if t := areas(v.Index(i), fmt.Sprintf("%s[%d]", path, i), into, seen); t != "" {
				return t
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if t := areas(v.Index(i), path, into, seen); t != "" {
				return t
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t := areas(v.Field(i), path+"."+v.Type().Field(i).Name, into, seen); t != "" {
				return t
			}
		}
	}
	return ""
}

// overlap finds two pieces that share memory, without being one within the
// other by construction.
func overlap(list []area, from int) string {
	sortAreas(list)
	for i := 1; i < len(list); i++ {
		if list[i].lo < list[i-1].hi {
			return list[i-1].what + " and " + list[i].what
		}
	}
	return ""
}

func sortAreas(l []area) {
	// insertion into a sorted list would be quadratic
	if len(l) < 2 {
		return
	}
	m := len(l) / 2
	a, b := append([]area(nil), l[:m]...), append([]area(nil), l[m:]...)
	sortAreas(a)
	sortAreas(b)
	for i := range l {
		if len(b) == 0 || len(a) > 0 && a[0].lo <= b[0].lo {
			l[i], a = a[0], a[1:]
		} else {
			l[i], b = b[0], b[1:]
		}
	}
}

// spoil changes everything a caller can change in a value.
func spoil(v reflect.Value, r *rand.Rand) (n int) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			n += spoil(v.Elem(), r)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			n += spoil(v.Elem(), r)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n += spoil(v.Field(i), r)
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
				n++
			}
			if v.Type().Key().Kind() == reflect.String {
				v.SetMapIndex(reflect.ValueOf("spoilt").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += spoil(v.Index(i), r)
		}
		if v.CanSet() {
			if v.Cap() > v.Len() { // what an append would write
				full := v.Slice(0, v.Cap())
				for i := v.Len(); i < v.Cap(); i++ {
					full.Index(i).Set(reflect.Zero(v.Type().Elem()))
					if full.Index(i).Kind() == reflect.Float64 {
						full.Index(i).SetFloat(-77)
					}
					n++
				}
			}
			if v.Len() > 1 {
				a, b := v.Index(0), v.Index(v.Len()-1)
				x := reflect.New(a.Type()).Elem()
				x.Set(a)
				a.Set(b)
				b.Set(x)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += spoil(v.Index(i), r)
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1 + int64(r.Intn(5)))
			n++
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
			n++
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float()*2 + 12345)
			n++
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "spoilt")
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	}
	return
}

func sameSyntaxError(a, b error) string {
	if a.Error() != b.Error() {
		return fmt.Sprintf("%q and %q", clip(a.Error()), clip(b.Error()))
	}
	x, is := a.(*g.Error)
	y, is2 := b.(*g.Error)
	if is != is2 {
		return fmt.Sprintf("a %T and a %T", a, b)
	}
	if is {
		if x == y {
			return "the very same Error value"
		}
		if x.Offset != y.Offset || x.Msg != y.Msg || x.Lit != y.Lit || fmt.Sprint(x.Err) != fmt.Sprint(y.Err) {
			return fmt.Sprintf("%+v and %+v", *x, *y)
		}
	}
	return ""
}

// pure parses a text several times, with other calls and modifications in
// between.
func (c *ctx) pure(r *rand.Rand, src string, between func()) {
	s1, e1, ok := c.parse(src)
	if !ok {
		return
	}
	c.eval()
	between()
	s2, e2, ok := c.parse(src)
	if !ok {
		return
	}
	if (e1 == nil) != (e2 == nil) {
		c.fail(src, "parsing twice gives %s, then %s", errText(e1), errText(e2))
		return
	}
	if e1 != nil {
		if d := sameSyntaxError(e1, e2); d != "" {
			c.fail(src, "parsing twice gives different errors: %s", d)
		}
		if x, is := e1.(*g.Error); is { // a caller may change what it got
			x.Offset, x.Msg, x.Lit, x.Err = 0, "spoilt", "spoilt", fmt.Errorf("spoilt")
			if _, e3, ok := c.parse(src); ok && e3 != nil {
				if d := sameSyntaxError(e2, e3); d != "" {
					c.fail(src, "changing an error changes a later one: %s", d)
				}
			}
		}
		c.count("errors compared")
		c.digest(e2.Error())
		return
	}
	if s1 == nil || s2 == nil {
		return
	}
	if !reflect.DeepEqual(s1, s2) {
		c.fail(src, "parsing twice gives %s and %s", clip(convStmt(s1).spans()), clip(convStmt(s2).spans()))
		return
	}
	for _, s := range []g.Statement{s1, s2} {
		var l []area
		if t := areas(reflect.ValueOf(s), "", &l, map[uintptr]string{}); t != "" {
			c.fail(src, "%s of one statement are the same object", t)
			return
		}
		// a slice's backing array may not run into another object
		if t := overlap(l, 0); t != "" {
			c.fail(src, "%s of one statement share memory", t)
			return
		}
	}
	var both []area
	areas(reflect.ValueOf(s1), "first", &both, map[uintptr]string{})
	n1 := len(both)
	areas(reflect.ValueOf(s2), "second", &both, map[uintptr]string{})
	if t := overlap(both, 0); t != "" {
		c.fail(src, "%s statement share memory", t)
		return
	}
	c.add("objects", n1)
	want := convStmt(s2).spans()
	text, _ := c.format(src, s2)
	c1 := g.CheckType(s2, formDict)
	c.guard("modification", src, len(src), func() { c.add("values changed", spoil(reflect.ValueOf(s1), r)) })
	if now := convStmt(s2).spans(); now != want {
		c.fail(src, "changing one statement changes another from %s to %s", clip(want), clip(now))
		return
	}
	if now, _ := c.format(src, s2); now != text {
		c.fail(src, "changing one statement changes the text of another from %q to %q", clip(text), clip(now))
		return
	}
	if c2 := g.CheckType(s2, formDict); !sameError(c1, c2) {
		c.fail(src, "changing one statement changes the check of another from %q to %q", errText(c1), errText(c2))
		return
	}
	s3, e3, ok := c.parse(src)
	if !ok {
		return
	}
	if e3 != nil {
		c.fail(src, "after changing a statement the text is rejected: %s", errText(e3))
		return
	}
	if !reflect.DeepEqual(s3, s2) {
		c.fail(src, "after changing a statement the text is parsed as %s instead of %s", clip(convStmt(s3).spans()), clip(want))
		return
	}
	c.kinds(convStmt(s3))
	c.nontrivial(convStmt(s3).String())
	c.digest(want)
	c.digest(text)
	c.sample(src)
}

// oneNode changes one node of a statement and compares the others.
func (c *ctx) oneNode(r *rand.Rand, src string) {
	st, err, ok := c.parse(src)
	if !ok || err != nil || st == nil {
		return
	}
	root, is := st.(g.Expr)
	if !is {
		return
	}
	var nodes []g.Expr
	var collect func(e g.Expr)
	collect = func(e g.Expr) {
		nodes = append(nodes, e)
		for _, m := range members(e) {
			collect(m)
		}
	}
	collect(root)
	own := func(e g.Expr) string { // a node without the nodes below it
		n := convExpr(e)
		return n.k + " " + n.v
	}
	k := r.Intn(len(nodes))
	if _, is := nodes[k].(*g.Trigger); is {
		return
	}
	var leaves []int
	before := make([]string, len(nodes))
	for i, e := range nodes {
		if _, is := e.(*g.Trigger); !is {
			before[i] = own(e)
			leaves = append(leaves, i)
		}
	}
	c.eval()
	// change the node's own values only
	v := reflect.ValueOf(nodes[k]).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !v.Type().Field(i).IsExported() || f.Kind() == reflect.Interface || f.Kind() == reflect.Pointer ||
			f.Kind() == reflect.Slice && (f.Type().Elem().Kind() == reflect.Interface || f.Type().Elem().Kind() == reflect.Pointer) {
			continue
		}
		c.add("values changed", spoil(f, r))
	}
	for _, i := range leaves {
		_, assign := nodes[i].(*g.Assign) // repeats the name below it
		if i != k && !assign && own(nodes[i]) != before[i] {
			c.fail(src, "changing the node %q changes the node %q to %q", clip(before[k]), clip(before[i]), clip(own(nodes[i])))
			return
		}
	}
	c.count("single nodes changed")
}

func init() {
	each22 := func(c *ctx, src string) { c.pure(newRand(hash64(src)), src, func() {}) }
	register(&property{id: "C22", twice: true, need: []string{"values changed", "errors compared", "objects", "single nodes changed", "node selector", "node polygon", "node collection", "node date", "tokenizers", "parsed much"},
		rule: "texts of all sorts parsed three times, with other calls between, the memory reachable from the results compared, one result changed in every field, spare capacity included, and the others and later results compared; in two processes that run the cases in opposite order; non-trivial: distinct statements",
		parts: []part{
			{"texts", 100_000, 3_000_000, func(c *ctx, r *rand.Rand, i int) {
				var src string
				switch i % 5 {
				case 0, 1:
					src, _, _ = statement(r, anyStmt, r.Intn(4))
				case 2:
					src = longText(r)
				case 3:
					src = nearMiss(r)
				case 4:
					src = anyText(r)
				}
				c.pure(r, src, func() {
					for k := r.Intn(3); k > 0; k-- {
						other := anyText(r)
						if st, err, ok := c.parse(other); ok && err == nil && st != nil {
							c.format(other, st)
							g.CheckType(st, someDict)
							spoil(reflect.ValueOf(st), r)
						}
					}
				})
			}},
			{"same forms again", 60_000, 1_500_000, func(c *ctx, r *rand.Rand, i int) {
				// the same literal several times in one statement
				x := newGen(r)
				x.operand(true, true)
				one, _, _ := layout(x.toks, 0, r)
				src := "trigger set a = " + one + "; b = " + one + "; when (" + one + ") == (" + one + ")"
				if i%3 == 0 {
					src = "trigger set a = " + one + "; when " + one
				}
				c.pure(r, src, func() {})
			}},
			{"one node", 80_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				var src string
				switch i % 3 {
				case 0:
					src, _, _ = statement(r, anyStmt, 0)
				case 1:
					src = longText(r)
				case 2:
					src = literalText(r)
				}
				c.oneNode(r, src)
			}},
			{"after failures", 40_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				// a rejected text, cut anywhere, must leave nothing behind
				src, _, _ := statement(r, anyStmt, r.Intn(4))
				other := src
				if r.Intn(2) == 0 {
					other, _, _ = statement(r, anyStmt, r.Intn(4))
				}
				c.pure(r, src, func() {
					for k := 0; k < 3; k++ {
						c.parse(other[:r.Intn(len(other)+1)])
					}
				})
			}},
			{"after much", 16, 64, func(c *ctx, r *rand.Rand, i int) {
				// millions of tokens of one kind leave nothing behind either
				tail := []string{" + x", " and 1.5", " + \"s\"", " + 1km", " /* c */ + x", " == x{\"a\"}", " + point[1,2]", " in [1,2] + x"}[i%8]
				much := "trigger when x" + strings.Repeat(tail, 20_000)
				if i/8%2 == 1 {
					much += " ("
				}
				src, _, _ := statement(r, anyStmt, 0)
				c.pure(r, src, func() {
					for k := 0; k < 60; k++ {
						if _, err, ok := c.parse(much); !ok || (err == nil) != (i/8%2 == 0) {
							c.fail(clip(much), "after %d parses the text gives %s", k, errText(err))
							return
						}
					}
				})
				c.count("parsed much")
			}},
			{"tokenizers", 20_000, 400_000, func(c *ctx, r *rand.Rand, i int) {
				// two tokenizers used in turn
				a, b := anyText(r), anyText(r)
				read := func(src string, step func(t *g.Tokenizer)) {
					c.guard("tokenizer", src, len(src), func() { step(g.NewTokenizer(strings.NewReader(src))) })
				}
				list := func(t *g.Tokenizer, n int) (out []string) {
					for k := 0; k < n; k++ {
						tok, lit := t.Scan()
						out = append(out, fmt.Sprint(tok, lit, t.Offset(), t.TokenText(), t.ErrorCount()))
					}
					return
				}
				const n = 60
				var la, lb []string
				read(a, func(t *g.Tokenizer) { la = list(t, n) })
				read(b, func(t *g.Tokenizer) { lb = list(t, n) })
				read(a+b, func(*g.Tokenizer) {
					ta, tb := g.NewTokenizer(strings.NewReader(a)), g.NewTokenizer(strings.NewReader(b))
					var xa, xb []string
					for len(xa) < n || len(xb) < n {
						if len(xb) >= n || len(xa) < n && r.Intn(2) == 0 {
							xa = append(xa, list(ta, 1)...)
						} else {
							xb = append(xb, list(tb, 1)...)
						}
					}
					if !reflect.DeepEqual(xa, la) || !reflect.DeepEqual(xb, lb) {
						c.fail(a+"\n----\n"+b, "two tokenizers used in turn give other tokens than one after the other")
					}
				})
				c.eval()
				c.count("tokenizers")
			}},
			{"dictionaries", 200, 200, func(c *ctx, r *rand.Rand, i int) {
				d1, d2 := g.Dict(), g.Dict()
				if d1 == nil || len(d1) != 0 {
					c.fail("", "Dict gives %v", d1)
					return
				}
				d1["a"] = g.Int
				if len(d2) != 0 || len(g.Dict()) != 0 {
					c.fail("", "two dictionaries share their entries")
				}
				c.eval()
			}},
			everyPart(func(c *ctx, src string) {
				if st, err, ok := c.parse(src); ok {
					c.eval()
					c.digest(errText(err))
					if err == nil && st != nil {
						c.digest(convStmt(st).spans())
					}
				}
			}),
			nestPart(6_000, 200_000, each22),
			wordPart(each22),
			hugePart(60, 600, nil, each22),
			sizedPart(2500, 40000, 2000, nil, each22),
		}})
}
