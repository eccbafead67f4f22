package main

// Monitors of the type checker: C16, C17.

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	g "github.com/mmadfox/go-geoql-parser"
)

// ---- reference type system, over the neutral tree

type kset uint16

const (
	kInt kset = 1 << iota
	kFloat
	kString
	kBool
	kArrInt
	kArrFloat
	kArrString
	kRange
	kGeometry
)

const kNum = kInt | kFloat
const kArrNum = kArrInt | kArrFloat

func (k kset) has(o kset) bool { return k&o != 0 }

func (k kset) String() string {
	var s []string
	for i, n := range []string{"int", "float", "string", "bool", "int array", "float array", "string array", "range", "geometry"} {
		if k&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	if s == nil {
		return "no kind"
	}
	return strings.Join(s, "|")
}

type types struct {
	dict map[string]g.SelectorType
	vars map[string]*node
}

func (t *types) literal(n *node) kset {
	switch n.k {
	case "int":
		return kInt
	case "float", "percent", "pressure", "distance", "speed", "temperature":
		return kFloat
	case "string":
		return kString
	case "bool":
		return kBool
	case "point", "line", "polygon", "multi", "collection":
		return kGeometry
	case "range":
		if t.element(n.kids[0]).has(kNum) && t.element(n.kids[1]).has(kNum) {
			return kRange
		}
	case "array":
		if len(n.kids) == 0 {
			return 0
		}
		all := kNum | kString
		for _, e := range n.kids {
			all &= t.element(e)
		}
		var k kset
		if all.has(kInt) {
			k |= kArrInt
		}
		if all.has(kFloat) {
			k |= kArrFloat
		}
		if all.has(kString) {
			k |= kArrString
		}
		return k
	}
	return 0
}

// element is the set of kinds a range end or an array element has; a variable
// counts there only if it holds a scalar.
func (t *types) element(n *node) kset {
	if n.k == "ref" {
		if v := t.vars[n.v]; v == nil || v.k == "range" || v.k == "array" {
			return 0
		}
	}
	return t.operand(n)
}

// operand is the set of kinds a literal, selector or variable can be used as.
func (t *types) operand(n *node) kset {
	switch n.k {
	case "selector":
		name := n.v[:strings.IndexByte(n.v, '{')]
		typ, ok := t.dict[name]
		if !ok {
			return 0
		}
		switch typ {
		case g.Int, g.ArrayInt:
			return kInt | kArrInt
		case g.Float, g.ArrayFloat:
			return kFloat | kArrFloat
		case g.String, g.ArrayString:
			return kString | kArrString
		case g.Boolean:
			return kBool
		}
		return 0
	case "ref":
		if v := t.vars[n.v]; v != nil && v.k != "ref" && v.k != "selector" {
			return t.literal(v)
		}
		return 0
	}
	return t.literal(n)
}

// binary gives the kind of the result, 0 if the operands do not fit.
func binaryKind(op string, l, r kset) kset {
	both := func(k kset) bool { return l.has(k) && r.has(k) }
	ok := false
	switch op {
	case "and", "or":
		ok = both(kBool)
	case "<", "<=", ">", ">=":
		ok = both(kNum)
	case "+", "-", "*", "/", "rem":
		if both(kNum) {
			if both(kInt) {
				return kInt
			}
			return kFloat
		}
		if op == "+" && both(kString) {
			return kString
		}
		return 0
	case "eq", "==", "not eq", "!=":
		ok = both(kNum) || both(kString) || both(kBool) || both(kArrString) || both(kArrNum|kGeometry)
	case "in", "not in":
		ok = l.has(kInt) && r.has(kArrInt) || l.has(kFloat) && r.has(kArrFloat) || l.has(kNum) && r.has(kRange|kGeometry) ||
			l.has(kString) && r.has(kArrString) || both(kGeometry)
	case "nearby", "not nearby", "intersects", "not intersects":
		ok = l.has(kGeometry|kNum) && r.has(kGeometry)
	}
	if ok {
		return kBool
	}
	return 0
}

// condition evaluates a condition; bad names the first operator that does not
// fit its operands.
func (t *types) condition(n *node, seen func(op string, l, r kset, ok bool)) (k kset, bad string) {
	switch n.k {
	case "paren":
		return t.condition(n.kids[0], seen)
	case "bin":
		l, bad := t.condition(n.kids[0], seen)
		if bad != "" {
			return 0, bad
		}
		r, bad := t.condition(n.kids[1], seen)
		if bad != "" {
			return 0, bad
		}
		k := binaryKind(n.v, l, r)
		if seen != nil {
			seen(n.v, l, r, k != 0)
		}
		if k == 0 {
			return 0, fmt.Sprintf("%s between %s and %s", n.v, l, r)
		}
		return k, ""
	}
	return t.operand(n), ""
}

// wellTyped gives the verdict of the reference on a statement.
func wellTyped(st *node, dict map[string]g.SelectorType, seen func(op string, l, r kset, ok bool)) (bad string) {
	t := &types{dict: dict, vars: map[string]*node{}}
	for _, a := range st.kids {
		switch a.k {
		case "assign":
			if t.vars[a.v] == nil {
				t.vars[a.v] = a.kids[1]
			}
		case "when":
			_, bad = t.condition(a.kids[0], seen)
		}
	}
	return
}

func (c *ctx) typed(src string, st g.Statement, dict g.Dictionary) {
	tree := convStmt(st)
	copied := map[string]g.SelectorType{}
	for k, v := range dict {
		copied[k] = v
	}
	ops := 0
	bad := wellTyped(tree, copied, func(op string, l, r kset, ok bool) {
		ops++
		c.count("operator " + op)
		if ok {
			c.count("fitting " + op)
		}
		c.nontrivial(fmt.Sprint(op, l, r))
	})
	var err error
	if !c.guard("CheckType", src, len(src), func() { err = g.CheckType(st, dict) }) {
		return
	}
	c.eval()
	if ops > 0 {
		c.max("operators", ops)
		if bad == "" {
			c.count("well typed")
		} else {
			c.count("ill typed")
		}
	}
	if err == nil && bad != "" {
		c.fail(src, "CheckType accepts %s (selectors %v)", bad, describeDict(tree, copied))
	}
	if err != nil && bad == "" {
		c.fail(src, "CheckType rejects a well-typed condition: %s (selectors %v)", clip(err.Error()), describeDict(tree, copied))
	}
	if bad == "" {
		c.sample(src)
	}
}

// describeDict gives the part of a dictionary a statement uses.
func describeDict(tree *node, dict map[string]g.SelectorType) string {
	set := map[string]bool{}
	tree.each(func(n *node) {
		if n.k == "selector" {
			name := n.v[:strings.IndexByte(n.v, '{')]
			if t, ok := dict[name]; ok {
				set[fmt.Sprintf("%s:%d", name, int(t))] = true
			}
		}
	})
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// ---- workloads

var formDict = g.Dictionary{"si": g.Int, "sf": g.Float, "ss": g.String, "sb": g.Boolean, "sai": g.ArrayInt, "saf": g.ArrayFloat, "sas": g.ArrayString,
	"sx": g.SelectorType(0), "sy": g.SelectorType(-1), "sz": g.SelectorType(8)}

const formVars = `trigger set vi=5; vf=-1.5; vs="s"; vb=true; vai=[1,2]; vaf=[1.5,2.5]; vas=["a","b"]; vpct=50%; vspd=5kph; vdst=3km; vprs=2bar; vtmp=-5C; vdur=1h;
 vri=1 .. 2; vrf=1.5 .. 2.5; vrm=1 .. 2.5; vrs="a" .. "b"; vrd=1h .. 2h; vrref=@vi .. @vf; vrsel=si .. sf; vrbad=1 .. "x"; vpt=point[1,2]; vln=line[[1,2],[3,4]]; vpg=polygon[[[1,2],[3,4],[1,2]]];
 vmp=multipoint[point[1,2]]; vcl=collection[point[1,2]]; vsel=si; vssel=ss; vasel=[si,si]; vasmix=[si,sf]; vassel=[ss,sas]; vapct=[1%,2%]; vadur=[1h,2h]; var=[1 .. 2,3 .. 4]; vpar=(1+2); vpar1=(1); vwd=weekday[mon,tue]; vmo=month[jan .. feb]; vdt=date[2022-01-01]; vtm=time[10:30]; vw=*; vneg=-7; vsa=sas; vab=["a",""];
 when `

var forms = []string{"1", "-2", "+3", "1.5", "-0.5", "\"s\"", "\"\"", "true", "down", "50%", "5kph", "3km", "2bar", "-5C", "10M", "1h", "1.5s", "*",
	"[1,2]", "[-1]", "[1.5,2.5]", "[\"a\",\"b\"]", "[1%,2%]", "[1km,2km]", "[1h]", "[si,sai]", "[sf,saf]", "[si,sf]", "[ss,sas]", "[ss,sb]", "[sb,sb]", "[su]", "[@vi,@vneg]", "[@vi,@vf]", "[@vf,@vdst]", "[@vs]", "[@vsel]", "[@vai]", "[1 .. 2,2 .. 3]", "[@vs,@undef]", "[5kph,6kph]", "[-5C,6C]", "[1bar,2psi]", "[@vb]",
	"1 .. 2", "1.5 .. 2.5", "1 .. 2.5", "1.5 .. 2", "-1 .. -2", "\"a\" .. \"b\"", "1 .. \"x\"", "\"x\" .. 1", "1h .. 2h", "1km .. 2km", "1% .. 2%", "si .. sf", "si .. ss", "@vi .. @vf", "@vi .. @vs", "@vi .. 5", "@vsel .. 5", "@vssel .. 5", "5 .. @vsel", "sai .. 2", "true .. false", "1 .. true", "1 .. 1h", "(1) .. (2)", "1 .. (2)", "1 .. [1,2]", "su .. 1", "1 .. su", "-5C .. 5C", "1 .. @undef", "1bar .. 2bar", "5kph .. 7kph", "1 .. point[1,2]",
	"point[1,2]", "point[1,2]:5km", "line[[1,2],[3,4]]", "polygon[[[1,2],[3,4],[1,2]]]", "multipoint[point[1,2]]", "multiline[line[[1,2],[3,4]]]", "multipolygon[polygon[[[1,2],[3,4],[1,2]]]]", "collection[point[1,2]]",
	"date[2022-01-01]", "time[10:30]", "weekday[mon]", "month[jan,feb]", "month[jan .. feb]",
	"si", "sf", "ss", "sb", "sai", "saf", "sas", "sx", "sy", "sz", "su", "SI", "si{\"d\"}", "sf{*}", "si:5km", "sb:1,2",
	"@vi", "@vf", "@vs", "@vb", "@vai", "@vaf", "@vas", "@vpct", "@vspd", "@vdst", "@vprs", "@vtmp", "@vdur", "@vri", "@vrf", "@vrm", "@vrs", "@vrd", "@vrref", "@vrsel", "@vrbad", "@vpt", "@vln", "@vpg", "@vmp", "@vcl", "@vsel", "@vssel", "@vasel", "@vasmix", "@vassel", "@vapct", "@vadur", "@var", "@vpar", "@vpar1", "@vwd", "@vmo", "@vdt", "@vtm", "@vw", "@vneg", "@vsa", "@vab", "@undef", "@VI",
	"(1)", "((sf))", "(@vs)", "([1,2])", "(point[1,2])", "(1 .. 2)",
	"(1+1)", "(1+1.5)", "(si*sf)", "(1/2)", "(3 rem 2)", "(1.0-si)", "(\"a\"+\"b\")", "(ss+@vs)", "(1==1)", "(true and sb)", "(si in [1,2])", "(1 nearby point[1,2])", "(\"a\" in sas)", "(5km-1km)", "(1<2)", "(sai+1)", "(true or @vb)", "(1 intersects point[1,2])"}

// typedGen writes conditions that tend to be well typed.
type typedGen struct {
	r *rand.Rand
	n int // operators left
}

func (x *typedGen) pick(s ...string) string { return s[x.r.Intn(len(s))] }

var allOps = []string{"or", "and", "<", "<=", ">", ">=", "eq", "==", "!=", "not eq", "in", "not in", "nearby", "not nearby", "intersects", "not intersects", "+", "-", "*", "/", "rem"}

func (x *typedGen) of(k kset) string {
	if x.r.Intn(40) == 0 { // now and then anything
		return forms[x.r.Intn(len(forms))]
	}
	x.n--
	deep := x.n > 0
	par := func(l, op, r string) string {
		s := l + " " + op + " " + r
		if x.r.Intn(3) > 0 {
			return "(" + s + ")"
		}
		return s
	}
	switch k {
	case kBool:
		if !deep || x.r.Intn(6) == 0 {
			return x.pick("true", "false", "sb", "@vb", "up", "(sb)")
		}
		switch x.r.Intn(8) {
		case 0, 1:
			return par(x.of(kBool), x.pick("and", "or", "and", "or", "==", "!="), x.of(kBool))
		case 2:
			return par(x.num(), x.pick("<", "<=", ">", ">=", "==", "eq", "not eq", "!="), x.num())
		case 3:
			return par(x.of(kString), x.pick("==", "!=", "eq", "not eq"), x.of(kString))
		case 4:
			op := x.pick("in", "not in")
			switch x.r.Intn(6) {
			case 0:
				return par(x.of(kInt), op, x.of(kArrInt))
			case 1:
				return par(x.of(kFloat), op, x.of(kArrFloat))
			case 2:
				return par(x.num(), op, x.of(kRange))
			case 3:
				return par(x.of(kString), op, x.of(kArrString))
			case 4:
				return par(x.num(), op, x.of(kGeometry))
			}
			return par(x.of(kGeometry), op, x.of(kGeometry))
		case 5, 6:
			l := x.num()
			if x.r.Intn(2) == 0 {
				l = x.of(kGeometry)
			}
			return par(l, x.pick("nearby", "intersects", "not nearby", "not intersects"), x.of(kGeometry))
		}
		a := []kset{kArrInt, kArrFloat, kGeometry}
		if x.r.Intn(3) == 0 {
			return par(x.of(kArrString), "==", x.of(kArrString))
		}
		return par(x.of(a[x.r.Intn(3)]), x.pick("==", "!=", "eq", "not eq"), x.of(a[x.r.Intn(3)]))
	case kInt:
		if deep && x.r.Intn(2) == 0 {
			return par(x.of(kInt), x.pick("+", "-", "*", "/", "rem"), x.of(kInt))
		}
		return x.pick("1", "-2", "si", "@vi", "sai", "(3)", "si{\"d\",*}", "@vneg")
	case kFloat:
		if deep && x.r.Intn(2) == 0 {
			l, r := x.of(kFloat), x.num()
			if x.r.Intn(2) == 0 {
				l, r = r, l
			}
			return par(l, x.pick("+", "-", "*", "/", "rem"), r)
		}
		return x.pick("1.5", "-2.5", "sf", "@vf", "saf", "5kph", "@vdst", "50%", "-5C", "2bar", "3km", "@vpct", "@vspd", "@vprs", "@vtmp", "(1.5)")
	case kString:
		if deep && x.r.Intn(2) == 0 {
			return par(x.of(kString), "+", x.of(kString))
		}
		return x.pick("\"s\"", "ss", "@vs", "sas", "\"\"")
	case kArrInt:
		return x.pick("[1,2]", "sai", "si", "@vai", "[si,sai]", "[@vi,@vneg]", "@vasel", x.list("1", "-2", "3"), x.list("si", "sai"))
	case kArrFloat:
		return x.pick("[1.5,2.5]", "saf", "sf", "@vaf", "[sf,saf]", "[@vf,@vdst]", "@vapct", "[1km,2km]", "[1%]", x.list("1.5", "2.5"), x.list("1km", "2M"), x.list("sf", "saf"))
	case kArrString:
		return x.pick("[\"a\"]", "sas", "ss", "@vas", "[ss,sas]", "@vassel", x.list("\"a\"", "\"b\""))
	case kRange:
		return x.pick("1 .. 2", "1.5 .. 2", "1 .. 2.5", "@vri", "@vrf", "@vrm", "si .. sf", "@vi .. @vf", "@vrref", "@vrsel", "1km .. 2km", "sai .. saf", "-1 .. @vneg")
	}
	return x.pick("point[1,2]", "@vpt", "@vln", "@vpg", "@vmp", "@vcl", "line[[1,2],[3,4]]", "polygon[[[1,2],[3,4],[1,2]]]", "multipoint[point[1,2]]", "collection[point[1,2]]", "multiline[line[[1,2],[3,4]]]", "multipolygon[polygon[[[1,2],[3,4],[1,2]]]]", "point[1,2]:5km")
}

func (x *typedGen) num() string {
	if x.r.Intn(2) == 0 {
		return x.of(kInt)
	}
	return x.of(kFloat)
}

func (x *typedGen) list(elems ...string) string {
	l := make([]string, 1+x.r.Intn(6))
	for i := range l {
		l[i] = x.pick(elems...)
	}
	if x.r.Intn(4) == 0 { // one that differs, anywhere
		l[x.r.Intn(len(l))] = x.pick("su", "sb", "ss", "si", "sf", "@undef", "@vs", "@vi", "@vai", "1", "1.5", "\"q\"", "1h")
	}
	return "[" + strings.Join(l, ",") + "]"
}

// someTypes changes the declared kinds of some selectors.
func someTypes(r *rand.Rand, d g.Dictionary) g.Dictionary {
	out := g.Dict()
	for k, v := range d {
		out[k] = v
	}
	keys := []string{"si", "sf", "ss", "sb", "sai", "saf", "sas", "su", "a", "x", "speed"}
	if r.Intn(6) == 0 { // many names that are not used
		n := []int{8, 20, 70, 140, 300}[r.Intn(5)] + r.Intn(10)
		if r.Intn(40) == 0 {
			n = 1000 + r.Intn(4000)
		}
		for ; n > 0; n-- {
			out[fmt.Sprintf("unused%d", n)] = g.SelectorType(r.Intn(9))
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		name := keys[r.Intn(len(keys))]
		switch r.Intn(10) {
		case 0:
			delete(out, name)
		case 8, 9: // no kind at all
			k := 1 << uint(r.Intn(62))
			out[name] = g.SelectorType([]int{k + 1 + r.Intn(7), -1 - r.Intn(8), 8 + r.Intn(300), k, -k}[r.Intn(5)])
			if t := out[name]; t >= g.Int && t <= g.ArrayString {
				out[name] = 0
			}
		case 6, 7: // a name in another case is another name
			delete(out, name)
			fallthrough
		case 5:
			other := name
			switch r.Intn(5) {
			case 0:
				other = strings.ToUpper(name)
			case 1:
				other = strings.ToUpper(name[:1]) + name[1:]
			case 2:
				other = strings.ReplaceAll(name, "s", "ſ") // folds to s
			case 3:
				other = name[:len(name)-1] + strings.ToUpper(name[len(name)-1:])
			case 4:
				other = " " + name + "_"
			}
			if other != name {
				out[other] = g.SelectorType(1 + r.Intn(7))
			}
		case 1:
			out[name] = g.SelectorType(r.Intn(12) - 2)
		default:
			out[name] = g.SelectorType(1 + r.Intn(7))
		}
	}
	return out
}

func (c *ctx) typedText(src string, dict g.Dictionary) {
	st, err, ok := c.parse(src)
	if !ok {
		return
	}
	if err != nil || st == nil {
		c.count("rejected")
		return
	}
	c.typed(src, st, dict)
}

// randomCondition is a statement with a condition that has a chance to fit.
func randomCondition(r *rand.Rand) string {
	x := &typedGen{r: r, n: 1 + r.Intn(14)}
	return formVars + x.of(kBool)
}

// sameNames is a statement over variables named a, b, c and so on that hold
// anything.
func sameNames(r *rand.Rand, n int) string {
	vals := []string{"1", "-2", "1.5", "\"s\"", "true", "si", "ss", "[1,2]", "[1.5]", "[\"a\"]", "1 .. 5", "1.5 .. 2", "1 .. \"x\"", "point[1,2]", "3km", "5s", "[sf,sf]", "@b .. 5", "(1)"}
	s := "trigger set "
	for k := 0; k < n; k++ {
		s += "abcd"[k:k+1] + " = " + vals[r.Intn(len(vals))] + "; "
	}
	term := func() string {
		v := func() string { return "@" + "abcd"[r.Intn(n):][:1] }
		switch r.Intn(8) {
		case 0:
			return v() + " .. " + v()
		case 1:
			return v() + " .. " + []string{"1", "2.5", "\"z\"", "sf"}[r.Intn(4)]
		case 2:
			return "[" + v() + "," + v() + "]"
		case 3:
			return []string{"1", "2.5", "\"z\"", "si", "sf", "ss", "sas", "point[1,2]", "true", "1 .. 2", "@e"}[r.Intn(11)]
		}
		return v()
	}
	e := term() + " " + allOps[r.Intn(len(allOps))] + " " + term()
	if r.Intn(3) == 0 {
		e = "(" + e + ") " + []string{"and", "or", "=="}[r.Intn(3)] + " " + term()
	}
	return s + "when " + e
}

func init() {
	need := []string{"well typed", "ill typed"}
	for _, op := range allOps {
		need = append(need, "operator "+op, "fitting "+op)
	}
	pairs := len(allOps) * len(forms) * len(forms)
	each16 := func(c *ctx, src string) { c.typedText(src, formDict) }
	register(&property{id: "C16", need: need,
		rule:  "every operator between every pair of about 190 operand forms (literals, arrays, ranges, geometries, selectors, variables, nested expressions), random nested conditions that tend to be well typed, long arrays with one odd element, random statements, and random dictionaries, against a reference type system; non-trivial: distinct triples of operator, left kind and right kind",
		notes: []string{"the reference takes the operand kinds from the statement Parse returned; C02 to C08 decide whether that is the one written"},
		parts: []part{
			{"pairs", pairs, pairs, func(c *ctx, r *rand.Rand, i int) {
				op, l, rt := allOps[i%len(allOps)], forms[i/len(allOps)%len(forms)], forms[i/len(allOps)/len(forms)]
				c.typedText(formVars+l+" "+op+" "+rt, formDict)
			}},
			{"conditions", 300_000, 8_000_000, func(c *ctx, r *rand.Rand, i int) {
				d := formDict
				if r.Intn(2) == 0 {
					d = someTypes(r, formDict)
				}
				c.typedText(randomCondition(r), d)
			}},
			{"nested pairs", 300_000, 8_000_000, func(c *ctx, r *rand.Rand, i int) {
				f := func() string { return forms[r.Intn(len(forms))] }
				o := func() string { return allOps[r.Intn(len(allOps))] }
				var s string
				switch r.Intn(3) {
				case 0:
					s = "(" + f() + " " + o() + " " + f() + ") " + o() + " " + f()
				case 1:
					s = f() + " " + o() + " (" + f() + " " + o() + " " + f() + ")"
				case 2:
					s = f() + " " + o() + " " + f() + " " + o() + " " + f()
				}
				c.typedText(formVars+s, formDict)
			}},
			{"long lists", 20_000, 400_000, func(c *ctx, r *rand.Rand, i int) {
				kinds := [][]string{{"1", "-2"}, {"1.5", "2.5"}, {"\"a\"", "\"b\""}, {"si", "sai"}, {"sf", "saf"}, {"ss", "sas"}, {"@vi", "@vneg"}, {"@vf", "@vdst"}, {"@vs"}}
				odd := []string{"su", "sb", "sx", "@undef", "@vb", "@vsel", "@vai", "ss", "si", "sf", "@vi", "@vf", "@vs"}
				k := r.Intn(len(kinds))
				n := 1 + r.Intn(200)
				if i%100 == 7 {
					n = 1 + r.Intn(20_000)
				}
				l := make([]string, n)
				for j := range l {
					l[j] = kinds[k][r.Intn(len(kinds[k]))]
				}
				if r.Intn(3) > 0 {
					l[[]int{0, n - 1, r.Intn(n)}[r.Intn(3)]] = odd[r.Intn(len(odd))]
				}
				list := "[" + strings.Join(l, ",") + "]"
				if n > 2000 { // an accepted condition but for one element
					for _, at := range []int{n - 1 - r.Intn(2), r.Intn(n), -1} {
						was := ""
						if at >= 0 {
							was, l[at] = l[at], odd[r.Intn(len(odd))]
						}
						text := "[" + strings.Join(l, ",") + "]"
						if at >= 0 {
							l[at] = was
						}
						c.max("long list", n)
						for _, left := range []string{"1", "1.5", "\"s\"", "si", "ss", "sf"} {
							c.typedText(formVars+left+" in "+text, formDict)
						}
					}
					return
				}
				left := []string{"1", "1.5", "\"s\"", "si", "sf", "ss", "@vi", "sb", "point[1,2]", list}[r.Intn(10)]
				op := []string{"in", "not in", "==", "!="}[r.Intn(4)]
				if r.Intn(4) == 0 {
					c.typedText("trigger set big = "+list+"; vi = 1; vneg = -2; vf = 1.5; vdst = 3km; vs = \"x\"; vb = true; vai = [1]; vsel = si; when "+left+" "+op+" @big", formDict)
					return
				}
				c.typedText(formVars+left+" "+op+" "+list, formDict)
			}},
			{"same names", 100_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				c.typedText(sameNames(r, 1+r.Intn(4)), someTypes(r, formDict))
			}},
			{"many variables", 300, 6000, func(c *ctx, r *rand.Rand, i int) {
				n := 1 + r.Intn(1<<uint(1+i%12))
				vals := []string{"1", "-2", "1.5", "\"s\"", "true", "si", "[1,2]", "[\"a\"]", "1 .. 5", "point[1,2]", "3km", "5s", "[sf, sf]", "weekday[mon]"}
				var b strings.Builder
				b.WriteString("trigger set ")
				for k := 0; k < n; k++ {
					fmt.Fprintf(&b, "%s%d = %s; ", []string{"v", "V", "var_"}[k%3], k, vals[r.Intn(len(vals))])
				}
				c.max("variables", n)
				set := b.String()
				ref := func() string {
					k := r.Intn(n)
					if r.Intn(4) == 0 {
						k = n - 1
					}
					return fmt.Sprintf("@%s%d", []string{"v", "V", "var_"}[k%3], k)
				}
				for k := 0; k < 12; k++ {
					right := ref()
					switch r.Intn(4) {
					case 0:
						right = "[" + ref() + ", " + ref() + "]"
					case 1:
						right = ref() + " .. " + ref()
					case 2:
						right = []string{"1", "1.5", "\"s\"", "point[1,2]"}[r.Intn(4)]
					}
					c.typedText(set+"when "+ref()+" "+allOps[r.Intn(len(allOps))]+" "+right, formDict)
				}
			}},
			{"statements", 60_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				src, st := c.someStatement(r)
				if st == nil {
					return
				}
				d := g.Dict()
				convStmt(st).each(func(n *node) {
					if n.k == "selector" && r.Intn(5) > 0 {
						d[n.v[:strings.IndexByte(n.v, '{')]] = g.SelectorType(1 + r.Intn(7))
					}
				})
				c.typed(src, st, d)
			}},
			{"no dictionary", 2000, 20_000, func(c *ctx, r *rand.Rand, i int) {
				f := func() string { return forms[r.Intn(len(forms))] }
				c.typedText(formVars+f()+" "+allOps[r.Intn(len(allOps))]+" "+f(), nil)
			}},
			{"deep", 300, 3000, func(c *ctx, r *rand.Rand, i int) {
				x := &typedGen{r: r, n: 50 + r.Intn(400)}
				c.typedText(formVars+x.of(kBool), formDict)
			}},
			nestPart(30_000, 600_000, each16),
			wordPart(each16),
			hugePart(90, 900, nil, each16),
			sizedPart(4000, 60000, 2000, nil, each16),
		}})
}

// ---- C17

func sameError(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Error() == b.Error()
}

func (c *ctx) steady(r *rand.Rand, src string, st g.Statement, dict g.Dictionary) {
	var before g.Dictionary
	if dict != nil {
		before = g.Dict()
		for k, v := range dict {
			before[k] = v
		}
	}
	var twin g.Statement
	if s, err, ok := c.parse(src); ok && err == nil {
		twin = s
	}
	equal := twin != nil && reflect.DeepEqual(st, twin)
	shape := convStmt(st).spans()
	check := func(s g.Statement, d g.Dictionary) (err error, ok bool) {
		ok = c.guard("CheckType", src, len(src), func() { err = g.CheckType(s, d) })
		return
	}
	first, ok := check(st, dict)
	if !ok {
		return
	}
	c.eval()
	for k := 0; k < 8; k++ {
		if k == 4 {
			// calls in between on something else
			other := randomCondition(r)
			if s, err, ok := c.parse(other); ok && err == nil {
				c.guard("CheckType", other, len(other), func() { g.CheckType(s, formDict) })
				c.format(other, s)
			}
			c.format(src, st)
			c.guard("Visit", src, len(src), func() {
				if e, is := st.(g.Expr); is {
					g.Visit(e, func(g.Expr) bool { return true })
				}
			})
		}
		err, ok := check(st, dict)
		if !ok {
			return
		}
		if !sameError(first, err) {
			c.fail(src, "CheckType gives %q, then %q", errText(first), errText(err))
			return
		}
	}
	if twin != nil && !c.otherDict(r, src, st, dict, first, check) {
		return
	}
	if twin != nil {
		d := g.Dict()
		for k, v := range dict {
			d[k] = v
		}
		if err, ok := check(twin, d); ok && !sameError(first, err) {
			c.fail(src, "CheckType gives %q, and %q for an equal statement and dictionary", errText(first), errText(err))
			return
		}
	}
	if after := convStmt(st).spans(); after != shape {
		c.fail(src, "CheckType changed the statement from %s to %s", clip(shape), clip(after))
		return
	}
	if fresh, err, ok := c.parse(src); ok && equal && (err != nil || !reflect.DeepEqual(st, fresh)) {
		c.fail(src, "CheckType changed the statement, or what Parse returns for the same text")
		return
	}
	if !reflect.DeepEqual(before, dict) {
		c.fail(src, "CheckType changed the dictionary from %v to %v", before, dict)
		return
	}
	c.digest(errText(first))
	if first != nil {
		c.count("rejected conditions")
		if first.Error() == "" {
			c.count("empty messages")
		}
		c.nontrivial(first.Error())
	} else {
		c.count("accepted conditions")
	}
	c.sample(src + " => " + errText(first))
}

// otherDict checks a statement with one dictionary right after another that
// has as many entries, and with one that the caller changes.
func (c *ctx) otherDict(r *rand.Rand, src string, st g.Statement, dict g.Dictionary, first error, check func(g.Statement, g.Dictionary) (error, bool)) bool {
	var names []string
	convStmt(st).each(func(n *node) {
		if n.k == "selector" {
			names = append(names, n.v[:strings.IndexByte(n.v, '{')])
		}
	})
	if len(names) == 0 || dict == nil {
		return true
	}
	fresh, err, ok := c.parse(src)
	if !ok || err != nil {
		return true
	}
	name := names[r.Intn(len(names))]
	old, declared := dict[name]
	other := 1 + (old+g.SelectorType(r.Intn(6)))%7
	change := func() { // of dict
		dict[name] = other
		if !declared {
			for k := range dict { // keep the size, where that does not matter
				if k != name && c.unused(names, k) {
					delete(dict, k)
					break
				}
			}
		}
	}
	was := g.Dict()
	for k, v := range dict {
		was[k] = v
	}
	change()
	changed, d2 := g.Dict(), g.Dict()
	for k, v := range dict {
		changed[k], d2[k] = v, v
	}
	restore := func() {
		for k := range dict {
			delete(dict, k)
		}
		for k, v := range was {
			dict[k] = v
		}
	}
	restore()
	want, ok := check(fresh, changed)
	if !ok {
		return false
	}
	for _, step := range []struct {
		how  string
		d    g.Dictionary
		want error
	}{{"the same dictionary", dict, first}, {"another dictionary", d2, want}, {"the first dictionary again", dict, first}} {
		have, ok := check(st, step.d)
		if !ok {
			return false
		}
		if !sameError(have, step.want) {
			c.fail(src, "CheckType with %s gives %q instead of %q", step.how, errText(have), errText(step.want))
			return false
		}
	}
	change()
	have, ok := check(st, dict)
	restore()
	if !ok {
		return false
	}
	if !sameError(have, want) {
		c.fail(src, "CheckType with a dictionary that was changed gives %q instead of %q", errText(have), errText(want))
		return false
	}
	have, ok = check(st, dict)
	if ok && !sameError(have, first) {
		c.fail(src, "CheckType with a dictionary that was changed back gives %q instead of %q", errText(have), errText(first))
		return false
	}
	c.count("dictionaries changed")
	return ok
}

func (c *ctx) unused(names []string, name string) bool {
	for _, n := range names {
		if n == name {
			return false
		}
	}
	return true
}

func init() {
	each17 := func(c *ctx, src string) {
		if st, err, ok := c.parse(src); ok && err == nil && st != nil {
			c.steady(newRand(hash64(src)), src, st, someDict)
		}
	}
	register(&property{id: "C17", twice: true, need: []string{"rejected conditions", "accepted conditions", "dictionaries changed"},
		rule: "every statement is checked ten times with the same dictionary, with other calls in between, once from a second parse, and with dictionaries of the same size and changed ones in turn, in two processes that run the cases in opposite order; non-trivial: distinct messages of rejected conditions",
		parts: []part{
			{"conditions", 60_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				src := randomCondition(r)
				d := someTypes(r, formDict)
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.steady(r, src, st, d)
				}
			}},
			{"ambiguous operands", 60_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				// selectors that fit several rules at once
				sel := []string{"si", "sf", "ss", "sai", "saf", "sas", "1", "1.5", "\"s\"", "[1]", "[si,sai]", "point[1,2]", "1..2"}
				x := sel[r.Intn(len(sel))]
				for k := 1 + r.Intn(4); k > 0; k-- {
					x = "(" + x + ") " + allOps[r.Intn(len(allOps))] + " " + sel[r.Intn(len(sel))]
				}
				src := formVars + x
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.steady(r, src, st, formDict)
				}
			}},
			{"messages with device ids", 20_000, 200_000, func(c *ctx, r *rand.Rand, i int) {
				ids := make([]string, 2+r.Intn(12))
				for k := range ids {
					ids[k] = fmt.Sprintf("\"d%d\"", r.Intn(40))
				}
				src := "when dev{" + strings.Join(ids, ",") + "}:" + []string{"1", "5km,\"z\"", "x{\"p\",\"q\",\"r\"}"}[r.Intn(3)] + " " + allOps[r.Intn(len(allOps))] + " " + forms[r.Intn(18)]
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.steady(r, src, st, formDict)
				}
			}},
			{"same names", 30_000, 600_000, func(c *ctx, r *rand.Rand, i int) {
				// the same few names mean something else in every statement
				src := sameNames(r, 1+r.Intn(4))
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.steady(r, src, st, someTypes(r, formDict))
				}
			}},
			{"statements", 40_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				src, st := c.someStatement(r)
				if st == nil {
					return
				}
				var d g.Dictionary
				switch r.Intn(4) {
				case 0:
				case 1:
					d = g.Dict()
				default:
					d = someTypes(r, someDict)
				}
				c.steady(r, src, st, d)
			}},
			{"long texts", 4000, 40_000, func(c *ctx, r *rand.Rand, i int) {
				src := longText(r)
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.steady(r, src, st, someTypes(r, someDict))
				}
			}},
			everyPart(func(c *ctx, src string) {
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.guard("CheckType", src, len(src), func() { c.digest(errText(g.CheckType(st, formDict))) })
					c.eval()
				}
			}),
			{"pairs of operands " + everywhere, 3000, 3000, func(c *ctx, r *rand.Rand, i int) {
				a, b := forms[r.Intn(len(forms))], forms[r.Intn(len(forms))]
				for _, op := range allOps {
					src := formVars + a + " " + op + " " + b
					if i%2 == 1 {
						src = formVars + "(" + a + " " + op + " " + b + ") " + op + " " + a
					}
					if st, err, ok := c.parse(src); ok && err == nil && st != nil {
						c.guard("CheckType", src, len(src), func() { c.digest(errText(g.CheckType(st, formDict))) })
						c.eval()
					}
				}
			}},
			nestPart(10_000, 300_000, each17),
			wordPart(each17),
			hugePart(60, 600, nil, each17),
			sizedPart(2000, 30000, 1500, nil, each17),
		}})
}
