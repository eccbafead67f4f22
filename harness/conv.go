package main

// From the real syntax tree to the neutral one, through the public API only.

import (
	"fmt"
	"reflect"
	"strconv"

	g "github.com/mmadfox/go-geoql-parser"
)

var tokName = map[g.Token]string{
	g.ILLEGAL: "ILLEGAL", g.EOF: "EOF",
	g.TRIGGER: "trigger", g.WHEN: "when", g.SET: "set", g.REPEAT: "repeat", g.RESET: "reset",
	g.INT: "INT", g.FLOAT: "FLOAT", g.STRING: "STRING",
	g.TIME: "time", g.DATE: "date", g.WEEKDAY: "weekday", g.MONTH: "month",
	g.IDENT: "@", g.RANGE: "..", g.BOOLEAN: "bool", g.SELECTOR: "SELECTOR",
	g.GEOMETRY_POINT: "point", g.GEOMETRY_LINE: "line", g.GEOMETRY_POLYGON: "polygon",
	g.GEOMETRY_MULTILINE: "multiline", g.GEOMETRY_MULTIPOINT: "multipoint",
	g.GEOMETRY_MULTIPOLYGON: "multipolygon", g.GEOMETRY_COLLECTION: "collection",
	g.ASSIGN: "=", g.SEMICOLON: ";", g.COLON: ":", g.LPAREN: "(", g.RPAREN: ")", g.COMMA: ",",
	g.RBRACK: "]", g.LBRACK: "[", g.RBRACE: "}", g.LBRACE: "{", g.PERIOD: ".",
	g.QUO: "/", g.MUL: "*", g.SUB: "-", g.ADD: "+", g.REM: "rem",
	g.GEQ: ">=", g.LEQ: "<=", g.GTR: ">", g.LSS: "<", g.AND: "and", g.OR: "or",
	g.IN: "in", g.NOT_IN: "not in", g.EQL: "eq", g.LEQL: "==", g.NEARBY: "nearby",
	g.INTERSECTS: "intersects", g.NOT_EQ: "not eq", g.NOT_NEARBY: "not nearby",
	g.LNEQ: "!=", g.NOT_INTERSECTS: "not intersects",
}

func nameOf(t g.Token) string {
	if s, ok := tokName[t]; ok {
		return s
	}
	return fmt.Sprintf("token#%d", int(t))
}

var arrayKindName = map[g.Token]string{
	g.SELECTOR: "selector", g.DURATION: "duration", g.SPEED: "speed", g.PRESSURE: "pressure",
	g.TEMPERATURE: "temperature", g.DISTANCE: "distance", g.PERCENT: "percent", g.INT: "int",
	g.FLOAT: "float", g.STRING: "string", g.IDENT: "ref", g.RANGE: "range",
	g.DATE: "date", g.TIME: "time", g.WEEKDAY: "weekday", g.MONTH: "month",
}

var unitNames = map[g.Unit]string{
	g.Kph: "Kph", g.Mph: "Mph", g.Celsius: "C", g.Fahrenheit: "F", g.Kilometer: "Km", g.Meter: "M",
	g.Bar: "Bar", g.Psi: "Psi", g.Percent: "Pct", g.AM: "AM", g.PM: "PM", g.Unknown: "",
}

func unitName(u g.Unit) string {
	if s, ok := unitNames[u]; ok {
		return s
	}
	return fmt.Sprintf("unit#%d", int(u))
}

func signName(s g.Sign) string {
	switch s {
	case 0:
		return ""
	case g.Plus:
		return " +"
	case g.Minus:
		return " -"
	}
	return fmt.Sprintf(" sign#%d", int(s))
}

func isNilPtr(e g.Expr) bool {
	v := reflect.ValueOf(e)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

// convStmt never panics: what cannot be read becomes part of the description.
func convStmt(st g.Statement) (n *node) {
	defer func() {
		if r := recover(); r != nil {
			n = nd("panic", fmt.Sprint(r))
		}
	}()
	t, ok := st.(*g.Trigger)
	if !ok || t == nil {
		return nd("unknown-statement", fmt.Sprintf("%T", st))
	}
	n = nd("trigger", "").at(int(t.Pos()), int(t.End()))
	for _, a := range t.Vars {
		n.kids = append(n.kids, convExpr(a))
	}
	n.kids = append(n.kids, nd("when", "", convExpr(t.When)))
	if t.RepeatCount != nil {
		n.kids = append(n.kids, nd("count", "", convExpr(t.RepeatCount)))
	}
	if t.RepeatInterval != nil {
		n.kids = append(n.kids, nd("interval", "", convExpr(t.RepeatInterval)))
	}
	if t.ResetAfter != nil {
		n.kids = append(n.kids, nd("reset", "", convExpr(t.ResetAfter)))
	}
	return n
}

func convList(l []g.Expr) (kids []*node) {
	for _, e := range l {
		kids = append(kids, convExpr(e))
	}
	return
}

func convExpr(e g.Expr) (n *node) {
	if e == nil || isNilPtr(e) {
		return nd("nil", fmt.Sprintf("%T", e))
	}
	defer func() { n.at(int(e.Pos()), int(e.End())) }()
	switch t := e.(type) {
	case *g.Assign:
		n = nd("assign", t.Left.Val, convExpr(t.Left), convExpr(t.Right))
		n.op = int(t.TokPos)
	case *g.Ident:
		n = nd("ident", t.Val)
	case *g.BinaryExpr:
		n = nd("bin", nameOf(t.Op), convExpr(t.Left), convExpr(t.Right))
		n.op = int(t.OpPos)
	case *g.ParenExpr:
		n = nd("paren", "", convExpr(t.Expr))
	case *g.WildcardTyp:
		n = nd("wildcard", "")
	case *g.Selector:
		args := make([]string, 0, len(t.Args))
		for a := range t.Args {
			args = append(args, a)
		}
		n = nd("selector", selectorValue(t.Ident, t.Wildcard, args), convList(t.Props)...)
	case *g.Ref:
		n = nd("ref", t.ID)
	case *g.IntTyp:
		n = nd("int", strconv.Itoa(t.Val))
	case *g.FloatTyp:
		n = nd("float", ftoa(t.Val))
	case *g.PercentTyp:
		n = nd("percent", ftoa(t.Val))
	case *g.StringTyp:
		n = nd("string", strconv.Quote(t.Val))
	case *g.BooleanTyp:
		n = nd("bool", strconv.FormatBool(t.Val))
	case *g.DurationTyp:
		n = nd("duration", strconv.FormatInt(int64(t.Val), 10))
	case *g.TemperatureTyp:
		n = nd("temperature", ftoa(t.Val)+" "+unitName(t.U)+signName(t.Vec))
	case *g.PressureTyp:
		n = nd("pressure", ftoa(t.Val)+" "+unitName(t.U))
	case *g.DistanceTyp:
		n = nd("distance", ftoa(t.Val)+" "+unitName(t.U))
	case *g.SpeedTyp:
		n = nd("speed", ftoa(t.Val)+" "+unitName(t.U))
	case *g.ArrayTyp:
		k, ok := arrayKindName[t.Kind]
		if !ok {
			k = fmt.Sprintf("kind#%d", int(t.Kind))
		}
		n = nd("array", k, convList(t.List)...)
	case *g.Range:
		n = nd("range", "", convExpr(t.Low), convExpr(t.High))
	case *g.DateTyp:
		n = nd("date", fmt.Sprintf("%d-%d-%d", t.Year, t.Month, t.Day))
	case *g.TimeTyp:
		u := unitName(t.U)
		if u != "" {
			u = " " + u
		}
		n = nd("time", fmt.Sprintf("%d:%d:%d%s", t.Hours, t.Minutes, t.Seconds, u))
	case *g.WeekdayTyp:
		n = nd("weekday", strconv.Itoa(t.Val))
	case *g.MonthTyp:
		n = nd("month", strconv.Itoa(t.Val))
	case *g.GeometryPointTyp:
		n = nd("point", pointsValue([][2]float64{t.Val}))
		if t.Radius != nil {
			n.kids = append(n.kids, convExpr(t.Radius))
		}
	case *g.GeometryLineTyp:
		n = nd("line", pointsValue(t.Val))
		if t.Margin != nil {
			n.kids = append(n.kids, convExpr(t.Margin))
		}
	case *g.GeometryPolygonTyp:
		n = nd("polygon", ringsValue(t.Val))
	case *g.GeometryMultiObjectTyp:
		n = nd("multi", nameOf(t.Kind), convList(t.Val)...)
	case *g.GeometryCollectionTyp:
		n = nd("collection", "", convList(t.Objects)...)
	default:
		n = nd("unknown", fmt.Sprintf("%T", e))
	}
	return n
}
