package main

// Texts in which one list, token or nest has a size of interest and whose
// elements are all told apart.

import (
	"fmt"
	"math/rand"
	"strings"
)

var sizedKinds = []string{"ints", "floats", "strings", "selectors", "refs", "ranges", "percents", "distances", "durations", "temperatures",
	"dates", "times", "weekdays", "months", "line", "rings", "ring", "multipoint", "multiline", "multipolygon", "collection",
	"ids", "props", "vars", "duplicate var", "operators", "digits", "fraction", "zeros", "string", "name", "id", "var name", "ref name", "parens", "nested props", "signs", "id list of vars", "geometry prop", "repeat digits", "underscores", "long string list"}

// sizedText builds a statement with something of size n.
func sizedText(r *rand.Rand, kind string, n int) string {
	n = max(n, 1)
	sep := ","
	if r.Intn(3) == 0 {
		sep = ", "
	}
	list := func(el func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(el(i))
		}
		return b.String()
	}
	pt := func(i int) string {
		return fmt.Sprintf("[%s%d.5,%s%d]", []string{"", "-"}[i*7/3&1], i, []string{"-", ""}[i*5/3&1], i%90)
	}
	vars := ""
	var v string
	chars := []rune("abcxyz_0189 .,;{}[]()@*-+/éßжÅ世😀")
	text := func(n int) string {
		b := make([]rune, n)
		for i := range b {
			b[i] = chars[r.Intn(len(chars))]
		}
		return string(b)
	}
	letters := []rune("abcdefxyzABCXYZ_09éж世")
	ident := func(n int) string {
		b := []rune{'q'}
		for len(b) < n {
			b = append(b, letters[r.Intn(len(letters))])
		}
		return string(b)
	}
	digits := func(n int) string {
		b := []byte{'1'}
		for len(b) < n {
			b = append(b, byte('0'+r.Intn(10)))
		}
		return string(b)
	}
	unit := func(u string) func(i int) string { return func(i int) string { return fmt.Sprint(i+1) + u } }
	switch kind {
	case "ints":
		if r.Intn(3) == 0 {
			sep = ":"
		}
		v = "[" + list(func(i int) string { return fmt.Sprint(i) }) + "]"
	case "floats":
		v = "[" + list(func(i int) string { return fmt.Sprintf("%d.25", i) }) + "]"
	case "strings", "long string list":
		v = "[" + list(func(i int) string { return fmt.Sprintf("\"s%d\"", i) }) + "]"
	case "selectors":
		v = "[" + list(func(i int) string { return fmt.Sprintf("sel%d", i) }) + "]"
	case "refs":
		v = "[" + list(func(i int) string { return fmt.Sprintf("@Ref%d", i) }) + "]"
	case "ranges":
		v = "[" + list(func(i int) string { return fmt.Sprintf("%d .. %d", i, i+7) }) + "]"
	case "percents":
		v = "[" + list(unit("%")) + "]"
	case "distances":
		v = "[" + list(unit([]string{"km", "m"}[r.Intn(2)])) + "]"
	case "durations":
		v = "[" + list(unit([]string{"h", "s"}[r.Intn(2)])) + "]"
	case "temperatures":
		v = "[" + list(func(i int) string { return []string{"-", "+"}[i%2] + fmt.Sprint(i) + "C" }) + "]"
	case "dates":
		v = "date[" + list(func(i int) string { return fmt.Sprintf("%d-%02d-%02d", 2022+i/336%170, i/28%12+1, i%28+1) }) + "]"
	case "times":
		v = "time[" + list(func(i int) string { return fmt.Sprintf("%d:%02d:%02d", i/3600%24, i/60%60, i%60) }) + "]"
	case "weekdays":
		v = "weekday[" + list(func(i int) string { return "sun mon tue wed thu fri sat"[i*5%7*4:][:3] }) + "]"
	case "months":
		v = "month[" + list(func(i int) string { return "jan feb mar apr may jun jul aug sep oct nov dec"[i*5%12*4:][:3] }) + "]"
	case "line":
		v = "line[" + list(pt) + "]"
	case "rings":
		v = "polygon[" + list(func(i int) string { return "[" + pt(i) + "," + pt(i+1) + "," + pt(i) + "]" }) + "]"
	case "ring":
		v = "polygon[[[1,1],[2,2],[1,1]],[" + list(pt) + "]]"
	case "multipoint":
		v = "multipoint[" + list(func(i int) string { return "point" + pt(i) + []string{"", ":5km"}[i&1] }) + "]"
	case "multiline":
		v = "multiline[" + list(func(i int) string { return "line[" + pt(i) + "," + pt(i+2) + "]" }) + "]"
	case "multipolygon":
		v = "multipolygon[" + list(func(i int) string { return "polygon[[" + pt(i) + "," + pt(i+2) + "," + pt(i) + "]]" }) + "]"
	case "collection":
		v = "collection[" + list(func(i int) string {
			if i%3 == 0 {
				return "line[" + pt(i) + ",[1,1]]:3M"
			}
			return "point" + pt(i)
		}) + "]"
	case "ids":
		v = "dev{" + list(func(i int) string { return fmt.Sprintf("\"d%d\"", i*7%n) }) + []string{"", ",*"}[r.Intn(2)] + "}"
	case "props":
		v = "dev:" + list(func(i int) string { return []string{"1", "x", "\"s\"", "-5C", "2km", "true", "@p"}[i%7] })
	case "vars", "duplicate var", "id list of vars":
		at := -1
		if kind == "duplicate var" {
			at = r.Intn(n)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s%d", []string{"v", "V", "ж"}[i%3], i)
			if i == n-1 && at >= 0 {
				name = fmt.Sprintf("%s%d", []string{"v", "V", "ж"}[at%3], at)
			}
			val := fmt.Sprint(i)
			if kind == "id list of vars" {
				val = fmt.Sprintf("dev%d{\"a%d\",\"b\"}", i, i)
			}
			fmt.Fprintf(&b, "%s = %s%s ", name, val, []string{";", ""}[r.Intn(2)])
		}
		vars, v = b.String(), fmt.Sprintf("@v%d", r.Intn(n))
	case "operators":
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "a%d %s ", i, binOps[r.Intn(len(binOps))])
		}
		v = b.String() + "z"
	case "digits":
		v = digits(n) + []string{"", ".5", ".5km", "%", ".25kph"}[r.Intn(5)]
	case "fraction":
		v = "3." + digits(n) + []string{"", "km", "%", "C", "bar", "s"}[r.Intn(6)]
	case "zeros":
		v = strings.Repeat("0", n) + []string{"7", "7.5", "7km", "7s", "7C"}[r.Intn(5)]
	case "underscores":
		v = "1" + strings.Repeat("_0", n/2) + []string{"_5.5", ".5", "_.5"}[r.Intn(3)]
	case "string":
		v = "\"" + text(n) + "\""
	case "name":
		v = ident(n)
	case "id":
		v = "dev{\"" + text(n) + "\",\"x\"}"
	case "var name":
		vars, v = ident(n)+" = 5; ", "b"
	case "ref name":
		v = "@" + ident(n)
	case "parens":
		n = min(n, 950)
		v = strings.Repeat("(", n) + "a" + strings.Repeat(")", n)
	case "nested props":
		n = min(n, 300)
		for i := 0; i < n; i++ {
			v += fmt.Sprintf("s%d{\"d%d\"}:", i, i)
		}
		v += "1"
	case "signs":
		v = []string{"-", "+"}[r.Intn(2)] + digits(n) + []string{".5", ".5C", "C"}[r.Intn(3)]
	case "geometry prop":
		v = "dev:line[" + list(pt) + "],polygon[[" + list(pt) + "]]"
	case "repeat digits":
		return "trigger when a repeat " + strings.Repeat("0", n-1) + "5 every " + strings.Repeat("0", n/2) + "3m reset after 1h"
	}
	s := "trigger "
	if vars != "" {
		s += "set " + vars
	} else if r.Intn(4) == 0 {
		s += "set first = " + v + "; second = 2; "
		if strings.HasPrefix(v, "@") {
			s = "trigger "
		}
		if r.Intn(2) == 0 {
			v = "@first"
		}
	}
	s += "when "
	switch r.Intn(4) {
	case 0:
		s += "first == 1 and " + v
	case 1:
		s += v + " or last"
	case 2:
		s += "(" + v + ") in b"
	default:
		s += v
	}
	if r.Intn(3) == 0 {
		s += " repeat 7 every 3m reset after 9s"
	}
	return s
}

// farApart is a condition with gap inside something of more than one word.
func farApart(r *rand.Rand, gap string) string {
	s := []string{"x not%sin y", "x NOT%snearby y", "x not%seq y", "x not%sintersects y", "1 .%s. 5", "x =%s= 1", "x <%s= 1", "x >%s= 1", "x !%s= 1", "5%skm", "-%s5C",
		"@%sv", "x%s:1", "x{%s\"a\"}", "point%s[1,2]", "date[2022%s-01-02]", "1%s%%", "x%s repeat 5 every 1h", "x repeat 5 every%s 1h", "x reset%s after 1h", "(x%s)", "x%s+ 1", "x not%snot in y", "time[1:20%spm]", "[1%s:2]"}[r.Intn(25)]
	s = fmt.Sprintf(s, gap)
	if r.Intn(2) == 0 {
		s = "first and " + s
	}
	return s
}

// hugePart runs check on texts in which a list or a token is very long, or
// which begin far behind the start of the input.
func hugePart(quick, thorough int, kinds []string, check func(c *ctx, src string)) part {
	if kinds == nil {
		kinds = sizedKinds
	}
	return part{"huge", quick, thorough, func(c *ctx, r *rand.Rand, i int) {
		if i%3 == 2 { // far behind
			n := []int{1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 20, 1 << 21}[r.Intn(6)]
			for _, s := range sizes {
				if s > 1<<17 && r.Intn(3) == 0 {
					n = s
				}
			}
			if i%90 == 2 {
				n = 1 << 24
			}
			n += r.Intn(60) - 50
			gap := []string{" ", "\n", "/* comment */", "// comment\n"}[r.Intn(4)]
			gap = strings.Repeat(gap, n/len(gap)+1)
			gap = gap[len(gap)-n:]
			if gap[0] != gap[n-1] { // a comment was cut
				gap = strings.Repeat(" ", n)
			}
			src := sizedText(r, kinds[r.Intn(len(kinds))], 1+r.Intn(20))
			k := strings.IndexByte(src, ' ')
			if i%2 == 0 {
				src = src[:k] + mutateTokens(r, src[k:], 1, nil)
			}
			c.max("offset", n)
			if r.Intn(2) == 0 { // far apart
				check(c, src[:k]+" when "+farApart(r, gap))
				return
			}
			check(c, src[:k]+gap+src[k:])
			return
		}
		kind := kinds[(i/3*2+i%3)%len(kinds)]
		n := 16_000 + r.Intn(150_000)
		switch kind {
		case "string", "name", "id", "var name", "ref name", "digits", "fraction", "zeros", "underscores", "signs", "repeat digits":
			n = 66_000 + r.Intn(1<<uint(17+r.Intn(3)))
		case "vars", "duplicate var", "id list of vars", "refs", "multipolygon", "rings":
			n /= 40
		case "operators":
			n /= 10
		}
		c.max("size", n)
		src := sizedText(r, kind, n)
		if r.Intn(4) == 0 {
			src = mutateTokens(r, src, 1, nil)
		}
		check(c, src)
	}}
}

// sizedPart runs check on texts with something of every size of interest, up
// to limit, and on such texts with one edit.
func sizedPart(quick, thorough, limit int, kinds []string, check func(c *ctx, src string)) part {
	if kinds == nil {
		kinds = sizedKinds
	}
	return part{"sizes", quick, thorough, func(c *ctx, r *rand.Rand, i int) {
		top := limit
		if r.Intn(4) > 0 {
			top = min(limit, 700)
		}
		n := someSize(r)
		for n > top {
			n = someSize(r)
		}
		src := sizedText(r, kinds[i%len(kinds)], n)
		switch r.Intn(8) {
		case 0, 1:
			src = mutateTokens(r, src, 1, nil)
		case 2:
			src = "trigger when " + farApart(r, strings.Repeat(" \n\t\r"[r.Intn(4):][:1], n))
		}
		c.max("size", n)
		check(c, src)
	}}
}

var openers = [][2]string{{"(", ")"}, {"[", "]"}, {"[1, ", "]"}, {"[a, ", "]"}, {"[a, b, ", "]"}, {"a:", ""}, {"a:5km,", ""}, {"-(", ")"}, {"x{\"d\"}:", ""}, {"(b and ", ")"}, {"(", " or b)"},
	{"1 .. (", ")"}, {"(1 .. ", ")"}, {"a == (", ")"}, {"[", ", 2]"}, {"(", ", 2)"}, {"a:(", ")"}, {"a:[", "]"}, {"[1 .. ", "]"}, {"@v + (", ")"}, {"(", " * 2)"}, {"x{", "}"}, {"{", "}"}}

var leaves = []string{"1", "a", "\"s\"", "1 .. 2", "[1, 2]", "[1 .. 2, 3 .. 4]", "[\"a\"", "[1, 2", "5km", "a:1,2", "a{\"d\", \"e\"}", "a{\"d\", \"e\"", "a{", "@v", "point[1, 2]", "point[1, 2]:5km", "point[1, 2",
	"line[[1, 2], [3, 4]]", "line[[1, 2], [3, 4]", "polygon[[[1, 2], [3, 4], [1, 2]]]", "polygon[[[1, 2], [3, 4], [1, 2]]", "collection[point[1, 2], line[[1, 2]]]", "multipoint[point[1, 2]",
	"10:10", "time[10:10, 11:11]", "time[10:10", "weekday[mon .. fri]", "weekday[mon", "month[jan, feb", "date[2022-01-01", "-1", "- 1", "1 ..", "a:", "a:1,", "a and", "a not", "", "10h .. 5h", "-5C"}

// nestText is a text of nested constructs, most often with a mistake in it:
// cut off, or with a bracket that is missing, wrong or too much.
func nestText(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return rowText(r)
	}
	n := 1 + r.Intn([]int{4, 20, 60}[r.Intn(3)])
	if r.Intn(40) == 0 {
		n = 100 + r.Intn(900)
	}
	few := make([]int, 1+r.Intn(4))
	for i := range few {
		few[i] = r.Intn(len(openers))
	}
	var in, out []string
	for i := 0; i < n; i++ {
		o := openers[few[r.Intn(len(few))]]
		in = append(in, o[0])
		out = append(out, o[1])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	head := []string{"when ", "when ", "trigger set v = ", "trigger set w = 1; v = ", "when b and ", "when a in "}[r.Intn(6)]
	leaf := leaves[r.Intn(len(leaves))]
	tail := ""
	if head[0] == 't' {
		tail = " when @v"
	}
	if r.Intn(4) == 0 {
		tail += " repeat 1 every 5s"
	}
	if r.Intn(4) == 0 {
		tail += " reset after 5s"
	}
	for k := []int{0, 1, 1, 1, 2}[r.Intn(5)]; k > 0; k-- {
		switch i := r.Intn(len(out) + 1); r.Intn(6) {
		case 0, 1:
			out, tail = out[:i], ""
		case 2:
			if i < len(out) {
				out = append(out[:i:i], out[i+1:]...)
			}
		case 3:
			if i < len(out) {
				out[i] = []string{")", "]", "}", ",", ";", ":"}[r.Intn(6)]
			}
		case 4:
			out = append(out[:i:i], append([]string{[]string{")", "]", "}", ", 1", " + 2", ":5km", " .. 2", "when", "1", " and"}[r.Intn(10)]}, out[i:]...)...)
		case 5:
			j := r.Intn(len(in))
			in = append(in[:j:j], append([]string{word(r) + " "}, in[j:]...)...)
		}
	}
	return head + strings.Join(in, "") + leaf + strings.Join(out, "") + tail
}

// rowText is a statement with many elements of one kind in a row, most often
// with a mistake among them: a wrong separator, or an element of another kind.
func rowText(r *rand.Rand) string {
	some := [][]string{
		{"1", "2", "-3", "+4", "50"}, {"1.5", "-2.5", "0.5", "6.25"}, {`"a"`, `"b"`, `""`}, {"5km", "1.5m", "-2km"}, {"5%", "1.5%"}, {"5kph", "6.5mph"}, {"1h", "1.5s", "30m"}, {"2bar", "3psi"},
		{"-5C", "41F"}, {"a", "b", "speed"}, {"@v", "@w"}, {"true", "down"}, {"1 .. 2", "3 .. 4.5"}, {"mon", "tue"}, {"jan", "feb"}, {"point[1,2]", "point[3.5,-4]:5km"}, {"[1,2]", "[3.5,-4]"},
		{"2022-01-01", "2022-02-28"}, {"10:30", "9:05"}, {"10:30:15", "9:05:10"}, {"[[1,2],[3,4]]"}, {"line[[1,2],[3,4]]"}, {"polygon[[[1,2],[3,4],[1,2]]]"}, {"x{\"d\"}", "y:1"}, {"(1)", "(a + 1)"}, {"not a", "-b"}, {"*"},
	}
	kind := r.Intn(len(some))
	n := 1 + r.Intn([]int{4, 8, 16, 40}[r.Intn(4)])
	if r.Intn(60) == 0 {
		n = someSize(r) % 1500
	}
	seps := []string{", ", ", ", ", ", ",", " , ", ":", " .. ", "; ", " and ", " + ", " == ", " "}
	sep := seps[r.Intn(3)]
	if r.Intn(6) == 0 {
		sep = seps[r.Intn(len(seps))]
	}
	simple := r.Intn(3) == 0 // one separator is wrong, nothing else
	if simple {
		n, sep = 2+r.Intn(14), ", "
	}
	one := func(k int) string { return some[k][r.Intn(len(some[k]))] }
	var row []string
	for i := 0; i < n; i++ {
		if i > 0 {
			row = append(row, sep)
		}
		row = append(row, one(kind))
	}
	place := func() int {
		switch r.Intn(4) {
		case 0:
			return max(0, len(row)-1-r.Intn(4))
		case 1:
			return min(len(row)-1, r.Intn(5))
		}
		return r.Intn(len(row))
	}
	wrong := func() string {
		return []string{":", ":", ",", " .. ", ";", "", " ", ",,", " and ", "-", "]", "{", "[", ")"}[r.Intn(14)]
	}
	if simple {
		row[1+2*r.Intn(n-1)] = wrong()
	} else if len(row) > 0 {
		for k := []int{0, 0, 1, 1, 1, 2}[r.Intn(6)]; k > 0; k-- {
			i := place()
			switch r.Intn(6) {
			case 0, 1, 2:
				if i%2 == 1 {
					row[i] = wrong()
				} else {
					row[i] = one(r.Intn(len(some)))
				}
			case 3:
				row[i] = " " + word(r) + " "
			case 4:
				row[i] = ""
			case 5:
				row[i] += row[i]
			}
		}
	}
	around := [][2]string{
		{"[", "]"}, {"[", "]"}, {"[", "]"}, {"", ""}, {"x{", "}"}, {"x{", "}:5km"}, {"x:", ""}, {"x:", ","}, {"(", ")"},
		{"point[", "]"}, {"line[", "]"}, {"line[", "]:5km"}, {"polygon[[", "]]"}, {"multipoint[", "]"}, {"multiline[", "]"}, {"multipolygon[", "]"}, {"collection[", "]"},
		{"weekday[", "]"}, {"month[", "]"}, {"date[", "]"}, {"time[", "]"}, {"[[", "]]"}, {"@v{", "}"},
	}[r.Intn(23)]
	switch {
	case !simple && r.Intn(4) == 0:
	case kind >= 17 && kind <= 19:
		around = [][2]string{{"date[", "]"}, {"time[", "]"}, {"time[", "]"}}[kind-17]
	case kind == 16:
		around = [][2]string{{"line[", "]"}, {"polygon[[", "]]"}}[r.Intn(2)]
	case kind == 13:
		around = [2]string{"weekday[", "]"}
	case kind == 14:
		around = [2]string{"month[", "]"}
	case kind == 15:
		around = [][2]string{{"multipoint[", "]"}, {"collection[", "]"}}[r.Intn(2)]
	case kind == 21:
		around = [2]string{"multiline[", "]"}
	case kind == 22:
		around = [2]string{"multipolygon[", "]"}
	default:
		around = [2]string{"[", "]"}
	}
	s := around[0] + strings.Join(row, "") + around[1]
	return []string{"when " + s, "when a in " + s, "when a and b in " + s + " or c", "trigger set v = " + s + " when @v", "trigger set v = " + s + "; w = 1 when @v repeat 1 every 5s reset after 5s"}[r.Intn(5)]
}

func nestPart(quick, thorough int, check func(c *ctx, src string)) part {
	return part{"nested with a mistake", quick, thorough, func(c *ctx, r *rand.Rand, i int) { check(c, nestText(r)) }}
}
