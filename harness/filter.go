package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------------------
// Filter expressions: a fragment of JavaScript with its own evaluator, independent of the interpreter used by json-dom
// ---------------------------------------------------------------------------------------------------------------------

type undef struct{}

// nativeNumbers is set when documents may have other numbers than float64.
var nativeNumbers = false

type fexpr interface {
	src() string
	eval(node interface{}, root M) (interface{}, error) // error: the expression throws
	truth(node interface{}, root M) (bool, error)
}

type fx struct {
	op   string
	kids []*fx
	lit  interface{}
	name string
	path pathT
}

// prepared says whether all the JSON paths within the expression can be followed. What happens if one of them cannot and is
// not needed (for no element, or not in the branch taken) is left open.
func (e *fx) prepared(root M) bool {
	if e.op == "path" {
		if _, err := refGet(root, e.path); err != nil {
			return false
		}
	}
	for _, k := range e.kids {
		if !k.prepared(root) {
			return false
		}
	}
	return true
}

func prepared(e fexpr, root M) bool {
	f, ok := e.(*fx)
	return !ok || f.prepared(root)
}

func (e *fx) truth(node interface{}, root M) (bool, error) {
	if nativeNumbers {
		// expressions see numbers of JavaScript
		node, root = jsonish(node), jsonish(root).(M)
	}
	v, err := e.eval(node, root)
	if err != nil {
		return false, err
	}
	return jsTruthy(v), nil
}

func jsLit(v interface{}, quote byte) string {
	switch x := v.(type) {
	case string:
		var b strings.Builder
		b.WriteByte(quote)
		for _, r := range x {
			switch {
			case r == rune(quote) || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r == '\n':
				b.WriteString("\\n")
			case r == '\t':
				b.WriteString("\\t")
			case r < 32 || r == 0xfeff || r == 0x2028 || r == 0x2029:
				fmt.Fprintf(&b, "\\u%04x", r)
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte(quote)
		return b.String()
	case nil:
		return "null"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func (e *fx) src() string {
	switch e.op {
	case "@":
		return "@"
	case "lit":
		q := byte('\'')
		if e.name == "dq" {
			q = '"'
		}
		return jsLit(e.lit, q)
	case "path":
		return e.path.render() + " "
	case "prop":
		return e.kids[0].src() + "." + e.name
	case "propb":
		return e.kids[0].src() + "[" + jsLit(e.name, '\'') + "]"
	case "idx":
		return e.kids[0].src() + "[" + fmt.Sprint(e.lit) + "]"
	case "length":
		return e.kids[0].src() + ".length"
	case "!", "typeof ":
		return e.op + "(" + e.kids[0].src() + ")"
	case "Math.max", "Math.min":
		return e.op + "(" + e.kids[0].src() + ", " + e.kids[1].src() + ")"
	case "charAt", "indexOf":
		return e.kids[0].src() + "." + e.op + "(" + e.kids[1].src() + ")"
	case "?:":
		return "(" + e.kids[0].src() + " ? " + e.kids[1].src() + " : " + e.kids[2].src() + ")"
	case "in":
		return "(" + e.kids[0].src() + " in " + e.kids[1].src() + ")"
	default:
		return "(" + e.kids[0].src() + " " + e.op + " " + e.kids[1].src() + ")"
	}
}

func jsTruthy(v interface{}) bool {
	switch x := v.(type) {
	case nil, undef:
		return false
	case bool:
		return x
	case float64:
		return x != 0 && !math.IsNaN(x)
	case string:
		return x != ""
	}
	return true
}

var errThrow = fmt.Errorf("the filter throws")

type errOutside struct{}

func (errOutside) Error() string { return "outside the modelled fragment" }

func utf16Len(s string) int {
	n := 0
	for _, r := range s {
		if r > 0xffff {
			n++
		}
		n++
	}
	return n
}

func (e *fx) eval(node interface{}, root M) (interface{}, error) {
	switch e.op {
	case "@":
		return node, nil
	case "lit":
		return e.lit, nil
	case "path":
		vs, err := refGet(root, e.path)
		if err != nil {
			return nil, errOutside{} // see prepared
		}
		if len(vs) == 1 {
			return vs[0], nil
		}
		return vs, nil
	case "&&", "||":
		l, err := e.kids[0].eval(node, root)
		if err != nil {
			return nil, err
		}
		if jsTruthy(l) == (e.op == "||") {
			return l, nil
		}
		return e.kids[1].eval(node, root)
	case "?:":
		l, err := e.kids[0].eval(node, root)
		if err != nil {
			return nil, err
		}
		if jsTruthy(l) {
			return e.kids[1].eval(node, root)
		}
		return e.kids[2].eval(node, root)
	}
	var vs []interface{}
	for _, k := range e.kids {
		v, err := k.eval(node, root)
		if err != nil {
			return nil, err
		}
		vs = append(vs, v)
	}
	switch e.op {
	case "prop", "propb", "length":
		name := e.name
		if e.op == "length" {
			name = "length"
		}
		switch x := vs[0].(type) {
		case M:
			if v, ok := x[name]; ok {
				return v, nil
			}
			return undef{}, nil
		case A:
			if name == "length" {
				return float64(len(x)), nil
			}
			return undef{}, nil
		case string:
			if name == "length" {
				if utf16Len(x) != len([]rune(x)) {
					return nil, errOutside{} // the interpreter counts characters outside the BMP as one
				}
				return float64(utf16Len(x)), nil
			}
			return undef{}, nil
		case float64, bool:
			return undef{}, nil
		}
		return nil, errThrow // of null or undefined
	case "idx":
		i := e.lit.(int)
		switch x := vs[0].(type) {
		case A:
			if i < len(x) {
				return x[i], nil
			}
			return undef{}, nil
		case M:
			if v, ok := x[strconv.Itoa(i)]; ok {
				return v, nil
			}
			return undef{}, nil
		case string:
			r := []rune(x)
			for _, c := range r {
				if c > 127 {
					return nil, errOutside{}
				}
			}
			if i < len(r) {
				return string(r[i]), nil
			}
			return undef{}, nil
		case float64, bool:
			return undef{}, nil
		}
		return nil, errThrow
	case "!":
		return !jsTruthy(vs[0]), nil
	case "typeof ":
		switch vs[0].(type) {
		case undef:
			return "undefined", nil
		case string:
			return "string", nil
		case float64:
			return "number", nil
		case bool:
			return "boolean", nil
		}
		return "object", nil
	case "===", "!==":
		if isObj(vs[0]) && isObj(vs[1]) {
			return nil, errOutside{} // identity of objects
		}
		return strictEq(vs[0], vs[1]) == (e.op == "==="), nil
	case "==", "!=":
		eq, err := looseEq(vs[0], vs[1])
		return eq == (e.op == "=="), err
	case "<", ">", "<=", ">=":
		return relational(e.op, vs[0], vs[1])
	case "-", "*", "%":
		a, err := toNum(vs[0])
		if err != nil {
			return nil, err
		}
		b, err := toNum(vs[1])
		if err != nil {
			return nil, err
		}
		switch e.op {
		case "-":
			return a - b, nil
		case "*":
			return a * b, nil
		}
		return math.Mod(a, b), nil
	case "+":
		a, b := vs[0], vs[1]
		if _, ok := a.(string); ok {
			if bs, ok := b.(string); ok {
				return a.(string) + bs, nil
			}
			return nil, errOutside{}
		}
		if _, ok := b.(string); ok {
			return nil, errOutside{}
		}
		x, err := toNum(a)
		if err != nil {
			return nil, err
		}
		y, err := toNum(b)
		if err != nil {
			return nil, err
		}
		return x + y, nil
	case "Math.max", "Math.min":
		x, err := toNum(vs[0])
		if err != nil {
			return nil, err
		}
		y, err := toNum(vs[1])
		if err != nil {
			return nil, err
		}
		if e.op == "Math.max" {
			return math.Max(x, y), nil
		}
		return math.Min(x, y), nil
	case "in":
		k, ok := vs[0].(string)
		if !ok {
			return nil, errOutside{}
		}
		switch x := vs[1].(type) {
		case M:
			_, ok := x[k]
			return ok, nil
		case A:
			return nil, errOutside{}
		}
		return nil, errThrow
	case "charAt", "indexOf":
		return nil, errOutside{}
	}
	panic("op " + e.op)
}

func strictEq(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case undef:
		_, ok := b.(undef)
		return ok
	case M, A:
		return false // objects are never compared with objects here
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	default:
		switch b.(type) {
		case M, A:
			return false
		}
		return a == b
	}
}

func isNullish(v interface{}) bool {
	if v == nil {
		return true
	}
	_, ok := v.(undef)
	return ok
}

func isObj(v interface{}) bool {
	switch v.(type) {
	case M, A:
		return true
	}
	return false
}

func looseEq(a, b interface{}) (bool, error) {
	if isNullish(a) || isNullish(b) {
		return isNullish(a) && isNullish(b), nil
	}
	if isObj(a) || isObj(b) {
		return false, errOutside{}
	}
	_, as := a.(string)
	_, bs := b.(string)
	if as && bs {
		return a == b, nil
	}
	x, err := toNum(a)
	if err != nil {
		return false, err
	}
	y, err := toNum(b)
	if err != nil {
		return false, err
	}
	return x == y, nil
}

func relational(op string, a, b interface{}) (interface{}, error) {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		for _, r := range as + bs {
			if r > 0xffff {
				return nil, errOutside{}
			}
		}
		switch op {
		case "<":
			return as < bs, nil
		case ">":
			return as > bs, nil
		case "<=":
			return as <= bs, nil
		}
		return as >= bs, nil
	}
	x, err := toNum(a)
	if err != nil {
		return nil, err
	}
	y, err := toNum(b)
	if err != nil {
		return nil, err
	}
	switch op {
	case "<":
		return x < y, nil
	case ">":
		return x > y, nil
	case "<=":
		return x <= y, nil
	}
	return x >= y, nil
}

// toNum: only conversions that leave no room for doubt; the rest is outside the fragment.
func toNum(v interface{}) (float64, error) {
	switch x := v.(type) {
	case float64:
		return x, nil
	case bool:
		if x {
			return 1, nil
		}
		return 0, nil
	case nil:
		return 0, nil
	case undef:
		return math.NaN(), nil
	case string:
		if x == "" {
			return 0, nil
		}
		plain := true
		for _, c := range x {
			if c < '0' || c > '9' {
				plain = false
			}
		}
		if plain && len(x) < 10 {
			f, _ := strconv.ParseFloat(x, 64)
			return f, nil
		}
		alpha := true
		for _, c := range x {
			if !(c >= 'a' && c <= 'z') {
				alpha = false
			}
		}
		if alpha {
			return math.NaN(), nil
		}
	}
	return 0, errOutside{}
}

// fexprFor makes a filter expression whose evaluation stays within the modelled fragment for every element it will be
// applied to. Where it cannot be arranged quickly, a trivial expression is used.
func (g gen) fexprFor(cur interface{}, root M) fexpr {
	var elems A
	switch x := cur.(type) {
	case M:
		for _, k := range keysOf(x) {
			elems = append(elems, x[k])
		}
	case A:
		elems = x
	}
	for try := 0; try < 12; try++ {
		e := g.bexpr(2, elems, root)
		ok := true
		for _, el := range elems {
			if _, err := e.eval(el, root); err != nil {
				if _, out := err.(errOutside); out {
					ok = false
				}
			}
		}
		if ok {
			return e
		}
	}
	return &fx{op: "lit", lit: g.Intn(2) == 0}
}

func (g gen) fkey(elems A) string {
	var ks []string
	for _, e := range elems {
		if m, ok := e.(M); ok {
			ks = append(ks, pathableKeys(m)...)
		}
	}
	for i := 0; i < 5 && len(ks) > 0; i++ {
		if k := ks[g.Intn(len(ks))]; !strings.Contains(k, "-") && k != "toString" && k != "constructor" && k != "__proto__" && k != "hasOwnProperty" {
			return k
		}
	}
	return []string{"a", "b", "name", "id"}[g.Intn(4)]
}

var fstr = []string{"x", "hello", "", "@", "$.a", "it's", "quo\"te", "naïve ☃", "日本語", "a", "b", ")]", "[?(", "a)]b", "\\", "1", "$", "(", "{["}

func (g gen) operand(depth int, elems A, root M) *fx {
	at := &fx{op: "@"}
	switch g.Intn(12) {
	case 0, 1:
		return at
	case 2, 3, 4:
		return &fx{op: "prop", name: g.fkey(elems), kids: []*fx{at}}
	case 5:
		return &fx{op: "propb", name: g.fkey(elems), kids: []*fx{at}}
	case 6:
		return &fx{op: "length", kids: []*fx{at}}
	case 7:
		return &fx{op: "idx", lit: g.Intn(3), kids: []*fx{at}}
	case 8:
		// a JSON path of plain steps that can be followed
		var p pathT
		var cur interface{} = root
		for i := 0; i < 3; i++ {
			if m, ok := cur.(M); ok && len(pathableKeys(m)) > 0 {
				ks := pathableKeys(m)
				k := ks[g.Intn(len(ks))]
				p = append(p, step{kind: sProp, name: k})
				cur = m[k]
			} else if a, ok := cur.(A); ok && len(a) > 0 {
				k := g.Intn(len(a))
				p = append(p, step{kind: sIndex, idx: []int{k}})
				cur = a[k]
			}
			if !isObj(cur) {
				break
			}
		}
		if len(p) > 0 && !isObj(cur) {
			return &fx{op: "path", path: p}
		}
		if len(p) > 0 {
			return &fx{op: "length", kids: []*fx{{op: "lit", lit: "abc"}}}
		}
		return &fx{op: "lit", lit: 1.0}
	case 9:
		l := &fx{op: "lit", lit: fstr[g.Intn(len(fstr))]}
		if g.Intn(2) == 0 {
			l.name = "dq"
		}
		return l
	case 10:
		if depth > 0 {
			return &fx{op: []string{"-", "*", "%", "+", "Math.max", "Math.min"}[g.Intn(6)], kids: []*fx{g.operand(depth-1, elems, root), g.operand(depth-1, elems, root)}}
		}
		return &fx{op: "lit", lit: float64(g.Intn(5))}
	default:
		return &fx{op: "lit", lit: []interface{}{0.0, 1.0, 2.0, 5.0, true, false, nil, 2.25}[g.Intn(8)]}
	}
}

func (g gen) bexpr(depth int, elems A, root M) *fx {
	switch g.Intn(10) {
	case 0, 1:
		if depth > 0 {
			return &fx{op: []string{"&&", "||"}[g.Intn(2)], kids: []*fx{g.bexpr(depth-1, elems, root), g.bexpr(depth-1, elems, root)}}
		}
	case 2:
		if depth > 0 {
			return &fx{op: "!", kids: []*fx{g.bexpr(depth-1, elems, root)}}
		}
	case 3:
		return g.operand(depth, elems, root)
	case 4:
		return &fx{op: "===", kids: []*fx{{op: "typeof ", kids: []*fx{g.operand(0, elems, root)}}, {op: "lit", lit: []string{"object", "string", "number", "undefined", "boolean"}[g.Intn(5)]}}}
	case 5:
		if depth > 0 {
			return &fx{op: "?:", kids: []*fx{g.bexpr(depth-1, elems, root), g.bexpr(depth-1, elems, root), g.bexpr(0, elems, root)}}
		}
	case 6:
		// guarded access: null and undefined have no properties
		return &fx{op: "&&", kids: []*fx{{op: "@"}, {op: []string{"===", "!==", "<", ">="}[g.Intn(4)], kids: []*fx{{op: "prop", name: g.fkey(elems), kids: []*fx{{op: "@"}}}, {op: "lit", lit: float64(g.Intn(6))}}}}}
	}
	return &fx{op: []string{"===", "!==", "==", "!=", "<", ">", "<=", ">="}[g.Intn(8)], kids: []*fx{g.operand(depth, elems, root), g.operand(depth, elems, root)}}
}
