package main

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	"github.com/andygello555/json-dom/jom"
)

// ---------------------------------------------------------------------------------------------------------------------
// A small model of JavaScript's object semantics: enough to say what a script that only moves values about does to its trail
// ---------------------------------------------------------------------------------------------------------------------

type jo struct{ m map[string]interface{} }
type ja struct{ e []interface{} }
type special struct { // a value that JSON has no or a different representation of
	js   string
	json interface{} // what it becomes
	gone bool        // left out of objects, null in arrays
}

func toHeap(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		o := &jo{map[string]interface{}{}}
		for k, e := range x {
			o.m[k] = toHeap(e)
		}
		return o
	case A:
		a := &ja{}
		for _, e := range x {
			a.e = append(a.e, toHeap(e))
		}
		return a
	}
	return v
}

// fromHeap is what JSON.stringify makes of a value.
func fromHeap(v interface{}) (out interface{}, gone bool) {
	switch x := v.(type) {
	case *jo:
		m := M{}
		for k, e := range x.m {
			if ev, gone := fromHeap(e); !gone {
				m[k] = ev
			}
		}
		return m, false
	case *ja:
		a := A{}
		for _, e := range x.e {
			ev, gone := fromHeap(e)
			if gone {
				ev = nil
			}
			a = append(a, ev)
		}
		return a, false
	case undef:
		return nil, true
	case special:
		return x.json, x.gone
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
	}
	return v, false
}

func reaches(from, to interface{}) bool {
	if from == to {
		return true
	}
	switch x := from.(type) {
	case *jo:
		for _, e := range x.m {
			if isContainer(e) && reaches(e, to) {
				return true
			}
		}
	case *ja:
		for _, e := range x.e {
			if isContainer(e) && reaches(e, to) {
				return true
			}
		}
	}
	return false
}

func isContainer(v interface{}) bool {
	switch v.(type) {
	case *jo, *ja:
		return true
	}
	return false
}

var specials = []special{
	{"undefined", nil, true}, {"function() { return 1; }", nil, true}, {"NaN", nil, false}, {"1/0", nil, false}, {"-1/0", nil, false},
	{"new String('boxed')", "boxed", false}, {"new Number(4.5)", 4.5, false}, {"new Boolean(false)", false, false},
	{"{toJSON: function() { return 'from toJSON'; }}", "from toJSON", false}, {"/x/", M{}, false},
	{"(function() { function K() { this.own = 1; } K.prototype.inherited = 2; return new K(); })()", M{"own": 1.0}, false},
	{"Object.create({hidden: 1})", M{}, false},
}

// tprog builds a random program together with its effect on the heap.
type tprog struct {
	g     gen
	trail interface{}
	src   strings.Builder
	ops   map[string]int
}

type place struct {
	expr string
	node interface{}
}

func (p *tprog) places() (objs, arrs []place) {
	n := 0
	var walk func(v interface{}, expr string)
	walk = func(v interface{}, expr string) {
		if n++; n > 200 {
			return
		}
		switch x := v.(type) {
		case *jo:
			objs = append(objs, place{expr, v})
			for _, k := range keysOf(x.m) {
				if k != "__proto__" {
					walk(x.m[k], expr+"["+jsLit(k, '"')+"]")
				}
			}
		case *ja:
			arrs = append(arrs, place{expr, v})
			for i, e := range x.e {
				walk(e, fmt.Sprintf("%s[%d]", expr, i))
			}
		}
	}
	walk(p.trail, "json.trail")
	return
}

// value gives an expression and its value. into is the container that it is put in.
func (p *tprog) value(into interface{}) (string, interface{}) {
	switch p.g.Intn(9) {
	case 0:
		s := specials[p.g.Intn(len(specials))]
		p.ops["special"]++
		return s.js, s
	case 1, 2:
		objs, arrs := p.places()
		all := append(objs, arrs...)
		q := all[p.g.Intn(len(all))]
		if !reaches(q.node, into) {
			p.ops["alias"]++
			return q.expr, q.node
		}
	}
	v := p.g.value(p.g.Intn(3))
	return toJS(v), toHeap(v)
}

func (p *tprog) fresh() string {
	for {
		var k string
		if p.g.Intn(4) == 0 {
			k = oddKeys[p.g.Intn(len(oddKeys))]
		} else {
			k = pathKeys[p.g.Intn(len(pathKeys))]
		}
		if k != "__proto__" && k != "toJSON" {
			return k
		}
	}
}

func (p *tprog) op() {
	objs, arrs := p.places()
	add := func(name, format string, a ...interface{}) {
		p.ops[name]++
		fmt.Fprintf(&p.src, format+"\n", a...)
	}
	if p.g.Intn(2) == 0 && len(objs) > 0 {
		o := objs[p.g.Intn(len(objs))]
		m := o.node.(*jo).m
		switch p.g.Intn(8) {
		case 0, 1, 2:
			k := p.fresh()
			js, v := p.value(o.node)
			add("set", "%s[%s] = %s;", o.expr, jsLit(k, '"'), js)
			m[k] = v
		case 3:
			if ks := keysOf(m); len(ks) > 0 {
				k := ks[p.g.Intn(len(ks))]
				if k != "__proto__" {
					add("delete", "delete %s[%s];", o.expr, jsLit(k, '"'))
					delete(m, k)
				}
			}
		case 4:
			for _, k := range keysOf(m) {
				if n, ok := m[k].(float64); ok && k != "__proto__" && math.Abs(n) < 1e15 {
					f := []float64{1, 3, 0.1, -7}[p.g.Intn(4)]
					switch p.g.Intn(3) {
					case 0:
						add("arith", "%s[%s] += %s;", o.expr, jsLit(k, '"'), js(f))
						m[k] = n + f
					case 1:
						add("arith", "%s[%s] *= %s;", o.expr, jsLit(k, '"'), js(f))
						m[k] = n * f
					case 2:
						add("arith", "%s[%s] /= %s;", o.expr, jsLit(k, '"'), js(f))
						m[k] = n / f
					}
					break
				}
			}
		case 5:
			for _, k := range keysOf(m) {
				if s, ok := m[k].(string); ok && k != "__proto__" {
					add("concat", "%s[%s] = %s[%s] + ' + ' + %s[%s];", o.expr, jsLit(k, '"'), o.expr, jsLit(k, '"'), o.expr, jsLit(k, '"'))
					m[k] = s + " + " + s
					break
				}
			}
		case 6:
			// count the keys that can be seen
			k := p.fresh()
			add("keys", "(function() { var n = 0; for (var k in %s) { if (Object.prototype.hasOwnProperty.call(%s, k)) n++; } %s[%s] = n; })();", o.expr, o.expr, o.expr, jsLit(k, '"'))
			m[k] = float64(len(m))
		case 7:
			k := p.fresh()
			add("getter", "Object.defineProperty(%s, %s, {get: function() { return 'got'; }, enumerable: true, configurable: true});", o.expr, jsLit(k, '"'))
			// later assignments through a getter without a setter have no effect, so this key is taken away again in most programs
			if p.g.Intn(3) > 0 {
				add("getter", "delete %s[%s];", o.expr, jsLit(k, '"'))
				delete(m, k)
			} else {
				fmt.Fprintf(&p.src, "Object.defineProperty(%s, %s, {value: 'got', writable: true, enumerable: true, configurable: true});\n", o.expr, jsLit(k, '"'))
				m[k] = "got"
			}
		}
		return
	}
	if len(arrs) == 0 {
		return
	}
	a := arrs[p.g.Intn(len(arrs))]
	x := a.node.(*ja)
	switch p.g.Intn(10) {
	case 0, 1:
		js, v := p.value(a.node)
		add("push", "%s.push(%s);", a.expr, js)
		x.e = append(x.e, v)
	case 2:
		add("pop", "%s.pop();", a.expr)
		if len(x.e) > 0 {
			x.e = x.e[:len(x.e)-1]
		}
	case 3:
		add("shift", "%s.shift();", a.expr)
		if len(x.e) > 0 {
			x.e = append([]interface{}{}, x.e[1:]...)
		}
	case 4:
		js, v := p.value(a.node)
		add("unshift", "%s.unshift(%s);", a.expr, js)
		x.e = append([]interface{}{v}, x.e...)
	case 5:
		add("reverse", "%s.reverse();", a.expr)
		for i, j := 0, len(x.e)-1; i < j; i, j = i+1, j-1 {
			x.e[i], x.e[j] = x.e[j], x.e[i]
		}
	case 6:
		i := p.g.Intn(len(x.e) + 3)
		js, v := p.value(a.node)
		add("index", "%s[%d] = %s;", a.expr, i, js)
		for len(x.e) <= i {
			x.e = append(x.e, undef{})
		}
		x.e[i] = v
	case 7:
		n := p.g.Intn(len(x.e) + 2)
		add("length", "%s.length = %d;", a.expr, n)
		for len(x.e) < n {
			x.e = append(x.e, undef{})
		}
		x.e = x.e[:n]
	case 8:
		if len(x.e) > 0 {
			i := p.g.Intn(len(x.e))
			n := p.g.Intn(len(x.e) - i + 1)
			js, v := p.value(a.node)
			add("splice", "%s.splice(%d, %d, %s);", a.expr, i, n, js)
			x.e = append(append(append([]interface{}{}, x.e[:i]...), v), x.e[i+n:]...)
		}
	case 9:
		if len(x.e) > 0 {
			i := p.g.Intn(len(x.e))
			add("delete-element", "delete %s[%d];", a.expr, i)
			x.e[i] = undef{}
		}
	}
}

// disguise rewrites a script such that it refers to the scope in another way, with the same effect.
func disguise(mode int, src string, alias bool) string {
	head, body := "#//!js\n", strings.TrimPrefix(src, "#//!js\n")
	switch mode {
	case 0:
		body = strings.ReplaceAll(body, "json.trail", "json['trail']")
	case 1:
		body = strings.ReplaceAll(body, "json.trail", `json["tr" + "ail"]`)
		body = strings.ReplaceAll(body, "json.jsonPathSelector", `json["jsonPath" + "Selector"]`)
	case 2:
		body = "var J = this['js' + 'on'], G = this;\n" + strings.ReplaceAll(body, "json.", "J.")
	case 3:
		if alias {
			body = "var T;\nfor (var k in json) { if (k.charAt(0) === 't') T = json[k]; }\n" + strings.ReplaceAll(body, "json.trail", "T")
		}
	case 4:
		var b strings.Builder
		for _, c := range []byte(body) {
			fmt.Fprintf(&b, "%%%02x", c)
		}
		body = fmt.Sprintf("eval(decodeURIComponent('%s'));", b.String())
	}
	return head + body
}

// eqProbe is JavaScript for a deep comparison, including the types of everything.
const eqProbe = `function eq(a, b) {
	if (typeof a !== typeof b) return false;
	if (a === null || b === null || typeof a !== 'object') return a === b;
	if (Object.prototype.toString.call(a) !== Object.prototype.toString.call(b)) return false;
	if (Array.isArray(a)) { if (a.length !== b.length) return false; for (var i = 0; i < a.length; i++) if (!eq(a[i], b[i])) return false; return true; }
	var n = 0, k;
	for (k in a) n++;
	for (k in b) { n--; if (!Object.prototype.hasOwnProperty.call(a, k) || !eq(a[k], b[k])) return false; }
	return n === 0;
}
`

// place puts an object somewhere in a bigger document and gives a function that reads it back.
func (g gen) embed(o M) (doc M, get func(M) interface{}, where string) {
	if g.Intn(25) == 0 {
		// far down
		var v interface{} = o
		n := 15 + g.Intn(80)
		var down []interface{}
		var path string
		for i := 0; i < n; i++ {
			if g.Intn(3) == 0 {
				v, down, path = A{1.0, v}, append(down, 1), ".[1]"+path
			} else {
				v, down, path = M{"d": v, "e": float64(i)}, append(down, "d"), ".d"+path
			}
		}
		return M{"in": v}, func(m M) interface{} {
			var cur interface{} = m["in"]
			for i := n - 1; i >= 0; i-- {
				if k, ok := down[i].(string); ok {
					cur = cur.(M)[k]
				} else {
					cur = cur.(A)[1]
				}
			}
			return cur
		}, "$.in" + path
	}
	switch g.Intn(5) {
	case 0, 1:
		return o, func(m M) interface{} { return m }, "$"
	case 2:
		return M{"in": M{"ner": o}, "other": g.value(2)}, func(m M) interface{} { return m["in"].(M)["ner"] }, "$.in.ner"
	case 3:
		return M{"l": A{1.0, o, "x"}, "other": g.value(2)}, func(m M) interface{} { return m["l"].(A)[1] }, "$.l.[1]"
	}
	return M{"l": A{A{}, A{A{o}, nil}}}, func(m M) interface{} { return m["l"].(A)[1].(A)[0].(A)[0] }, "$.l.[1].[0].[0]"
}

func noProto(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		for k, e := range x {
			if k == "__proto__" || k == "toJSON" {
				delete(x, k)
				continue
			}
			noProto(e)
		}
	case A:
		for _, e := range x {
			noProto(e)
		}
	}
	return v
}

func init() {
	register(&Check{
		ID:     "C11",
		Rule:   "a case is a random document with a script that compares what it sees with the document (types included) and then makes 0 to 12 changes (assignments, deletions, array methods, aliases, values that JSON does not have); the result is compared with a model of JavaScript's object semantics; non-trivial: the script changed something, keyed by the operations and the scope",
		Assume: []string{"the model of JavaScript's object semantics in harness/checks_trail.go", "a value placed in the trail becomes what JSON.stringify makes of it"},
		Run: func(r *Runner) {
			exec := func(t *T, doc M) M {
				src := js(doc)
				t.Input("%s", src)
				m := jom.New()
				if err := m.Unmarshal([]byte(src)); err != nil {
					t.Fail("unmarshal", "%v", err)
				}
				if p := runDoc(m); p != nil {
					t.Fail("script-failed", "evaluation failed: %v", p)
				}
				return *m.GetInsides()
			}
			r.Group("programs", r.N(3500, 90000), func(t *T) {
				g := gen{t.R, true}
				o := noProto(g.obj(1 + g.Intn(3))).(M)
				delete(o, "zz script")
				p := &tprog{g: g, trail: toHeap(o), ops: map[string]int{}}
				fmt.Fprintf(&p.src, "#//!js\n%s", eqProbe)
				fmt.Fprintf(&p.src, "(function() { var c = JSON.parse(JSON.stringify(json.trail)); delete c['zz script']; if (!eq(c, %s)) throw 'saw ' + JSON.stringify(c); delete json.trail['zz script']; })();\n", toJS(o))
				if g.Intn(12) == 0 {
					v := noProto(g.obj(2)).(M)
					fmt.Fprintf(&p.src, "json.trail = %s;\n", toJS(v))
					p.trail = toHeap(v)
					p.ops["replace"]++
				}
				for k := g.Intn(13); k > 0; k-- {
					p.op()
				}
				want, _ := fromHeap(p.trail)
				in := deepCopyV(o).(M)
				text := disguise(g.Intn(10), p.src.String(), p.ops["replace"] == 0)
				in["zz script"] = text
				doc, get, where := g.embed(in)
				rest := deepCopyV(doc).(M)
				got := exec(t, doc)
				if !same(get(got), want) {
					t.Fail("trail", "%s: got  %s\nwant %s\nscript:\n%s", where, js(get(got)), js(want), text)
				}
				// everything outside the scope stays
				for k := range rest {
					if where != "$" && k == "other" && !same(rest[k], got[k]) {
						t.Fail("outside", "%s changed from %s to %s", k, js(rest[k]), js(got[k]))
					}
				}
				n := 0
				for k, c := range p.ops {
					t.Count("op-"+k, c)
					n += c
				}
				if n > 0 {
					t.Nontrivial(fmt.Sprint(where, p.ops))
				}
			})
			r.Group("noop", r.N(2500, 60000), func(t *T) {
				g := gen{t.R, true}
				o := noProto(g.obj(1 + g.Intn(4))).(M)
				in := deepCopyV(o).(M)
				n := 1 + g.Intn(3)
				var keys []string
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("script %d!", i)
					in[k] = disguise(g.Intn(10), "#//!js\n"+[]string{"", "var x = json.trail;", "json.trail = json.trail;", "json.trail = JSON.parse(JSON.stringify(json.trail));", "for (var k in json.trail) { json.trail[k] = json.trail[k]; }", "'use strict'; /* nothing */ // here"}[g.Intn(6)], false)
					keys = append(keys, k)
				}
				doc, get, where := g.embed(in)
				got := exec(t, doc)
				if !same(get(got), o) {
					t.Fail("noop", "%s: got  %s\nwant %s", where, js(get(got)), js(o))
				}
				t.Nontrivial(fmt.Sprint("noop ", where, n, shapeOf(o)))
			})
			r.Group("big", r.N(60, 1500), func(t *T) {
				// scopes that are big, and scripts that make big ones or that recurse deeply
				g := gen{t.R, false}
				o := noProto(g.bigDoc()).(M)
				want := deepCopyV(o).(M)
				var src string
				n := 0
				kind := g.Intn(7)
				switch kind {
				case 0:
					n = 500 + g.Intn(3500)
					src = fmt.Sprintf("function f(n) { return n === 0 ? 0 : 1 + f(n - 1); } json.trail.big = f(%d);", n)
					want["big"] = float64(n)
				case 1:
					n = 500 + g.Intn(3000)
					src = fmt.Sprintf("json.trail.big = []; for (var i = 0; i < %d; i++) { json.trail.big.push(i %% 7 === 3 ? {i: i} : i); }", n)
					l := A{}
					for i := 0; i < n; i++ {
						if i%7 == 3 {
							l = append(l, M{"i": float64(i)})
						} else {
							l = append(l, float64(i))
						}
					}
					want["big"] = l
				case 2:
					n = 12 + g.Intn(6)
					src = fmt.Sprintf("var s = 'ab\\n\\u2603'; for (var i = 0; i < %d; i++) { s = s + s; } json.trail.big = s;", n-2)
					want["big"] = strings.Repeat("ab\n☃", 1<<uint(n-2))
				case 3:
					n = 200 + g.Intn(1500)
					src = fmt.Sprintf("json.trail.big = {}; for (var i = 0; i < %d; i++) { json.trail.big['key' + i] = [i]; }", n)
					m := M{}
					for i := 0; i < n; i++ {
						m[fmt.Sprintf("key%d", i)] = A{float64(i)}
					}
					want["big"] = m
				case 4:
					n = 30 + g.Intn(300)
					src = fmt.Sprintf("var v = {leaf: true}; for (var i = 0; i < %d; i++) { v = i %% 3 ? {v: v} : [i, v]; } json.trail.big = v;", n)
					var v interface{} = M{"leaf": true}
					for i := 0; i < n; i++ {
						if i%3 != 0 {
							v = M{"v": v}
						} else {
							v = A{float64(i), v}
						}
					}
					want["big"] = v
				case 5:
					n = 100 + g.Intn(400)
					src = fmt.Sprintf("var t = 0; for (var i = 0; i < %d; i++) { t += i; json.trail.big = t; }", n)
					want["big"] = float64(n * (n - 1) / 2)
				case 6:
					src = "var n = 0; (function walk(v) { n++; if (v !== null && typeof v === 'object') { for (var k in v) { walk(v[k]); } } })(json.trail); json.trail.big = n - 1;"
					var count func(v interface{})
					count = func(v interface{}) {
						n++
						switch x := v.(type) {
						case M:
							for _, e := range x {
								count(e)
							}
						case A:
							for _, e := range x {
								count(e)
							}
						}
					}
					count(o)
					want["big"] = float64(n)
				}
				in := deepCopyV(o).(M)
				in["zz script"] = "#//!js\ndelete json.trail['zz script'];\n" + src
				if kind == 6 {
					want["big"] = float64(n - 1)
				}
				doc, get, where := g.embed(in)
				got := exec(t, doc)
				if !same(get(got), want) {
					t.Fail("big", "%s, %s: got  %s\nwant %s", where, src, clip(js(get(got)), 3000), clip(js(want), 3000))
				}
				t.Count("big-scopes", 1)
				t.Nontrivial(fmt.Sprint("big ", kind, n, shapeOf(want)))
			})
			r.Group("chain", r.N(400, 8000), func(t *T) {
				// several scripts of one scope hand values on to one another
				g := gen{t.R, true}
				doc := M{"acc": A{}, "n": 1.0}
				n := 2 + g.Intn(8)
				acc := A{}
				x := 1.0
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("k%02d", i)
					v := noProto(g.value(1))
					f := float64(g.Intn(5) + 1)
					doc[k] = fmt.Sprintf("#//!js\nif (json.trail.acc.length !== %d || json.trail.n !== %s) throw 'stale';\njson.trail.acc.push(%s);\njson.trail.n = json.trail.n * %v + 1;", i, js(x), toJS(v), f)
					acc = append(acc, v)
					x = x*f + 1
				}
				got := exec(t, doc)
				want := M{"acc": acc, "n": x}
				if !same(got, want) {
					t.Fail("chain", "got %s\nwant %s", js(got), js(want))
				}
				t.Nontrivial(fmt.Sprint("chain ", n, shapeOf(acc)))
			})
		},
	})

	register(&Check{
		ID:     "C12",
		Rule:   "a case is a script with 1 to 8 selections, sets and direct changes of its scope by random paths, each caught by the script if it throws; values and final document are compared with the reference of the native API; non-trivial: at least one selection or set took effect, keyed by path kinds and outcome",
		Assume: []string{"the reference evaluation in harness/model.go", "a selection of exactly one array is expanded, as within scripts it always was"},
		Run: func(r *Runner) {
			type nop struct {
				kind  string // get, set, assign, held-get, held-set, bad
				path  pathT
				raw   string
				value interface{}
				held  int
			}
			lineRe := regexp.MustCompile(`\tR(\d+):(.*)\n`)
			r.Group("scripts", r.N(2500, 60000), func(t *T) {
				g := gen{t.R, false}
				doc := noProto(g.anyDoc()).(M)
				const key = "zz_script"
				mode := g.Intn(10)
				var ops []nop
				ref := deepCopyV(doc).(M)
				for k := 1 + g.Intn(8); k > 0; k-- {
					o := nop{path: g.path(ref, 1+g.Intn(4)), held: -1}
					switch g.Intn(10) {
					case 0, 1, 2, 3:
						o.kind = "get"
					case 4, 5, 6:
						o.kind = "set"
						if g.Intn(3) > 0 {
							o.value = noProto(g.value(g.Intn(3)))
						}
						try := deepCopyV(ref).(M)
						if refSet(try, o.path, o.value) == nil {
							ref = try
						}
					case 7:
						o.kind = "assign"
						o.raw = g.key()
						if o.raw == "__proto__" {
							o.raw = "a"
						}
						o.value = noProto(g.value(2))
						ref[o.raw] = deepCopyV(o.value)
					case 8:
						o.kind = "held-get"
						if g.Intn(2) == 0 {
							o.kind = "held-set"
							o.value = noProto(g.value(1))
						}
						for i, q := range ops {
							if q.kind == "get" || q.kind == "set" {
								o.held = i
								o.path = q.path
								if g.Intn(2) == 0 {
									break
								}
							}
						}
						if o.held < 0 {
							o.kind = "get"
						}
					case 9:
						o.kind = "bad"
						o.raw = []string{`"a.b"`, `""`, `5`, ``, `"$.a", "$.b"`, `null`, `"$.a["`, `"$[?(@.a]"`, `"$["`, `"$..."`, `{}`, `undefined`}[g.Intn(12)]
						if o.raw == `"$..."` {
							o.raw = `"b"`
						}
					}
					ops = append(ops, o)
				}
				render := func() string {
					var b strings.Builder
					b.WriteString("#//!js\nvar h = [], r;\nfunction show(i, f) { try { r = JSON.stringify(f()); } catch (e) { r = 'threw'; } console.log('R' + i + ':' + r); }\n")
					for i, o := range ops {
						lit := jsLit(o.path.render(), '"')
						switch o.kind {
						case "get":
							fmt.Fprintf(&b, "show(%d, function() { h[%d] = json.jsonPathSelector(%s); return h[%d].getValues(); });\n", i, i, lit, i)
						case "set":
							v := toJS(o.value)
							if o.value == nil && i%2 == 0 {
								v = "undefined"
							}
							fmt.Fprintf(&b, "show(%d, function() { h[%d] = json.jsonPathSelector(%s); h[%d].setValues(%s); return 1; });\n", i, i, lit, i, v)
						case "assign":
							fmt.Fprintf(&b, "json.trail[%s] = %s;\n", jsLit(o.raw, '"'), toJS(o.value))
						case "held-get":
							fmt.Fprintf(&b, "show(%d, function() { return h[%d].getValues(); });\n", i, o.held)
						case "held-set":
							fmt.Fprintf(&b, "show(%d, function() { h[%d].setValues(%s); return 1; });\n", i, o.held, toJS(o.value))
						case "bad":
							fmt.Fprintf(&b, "show(%d, function() { return json.jsonPathSelector(%s); });\n", i, o.raw)
						}
					}
					return b.String()
				}
				var want map[string]interface{} // op -> value or errPath
				var final M
				var src string
				effective := 0
			again:
				src = disguise(mode, render(), false)
				final = deepCopyV(doc).(M)
				final[key] = src
				want = M{}
				var kinds []string
				effective = 0
				for i, o := range ops {
					id := fmt.Sprint(i)
					switch o.kind {
					case "get", "held-get":
						vals, err := refGet(final, o.path)
						if outside(err) {
							ops = append(ops[:i:i], ops[i+1:]...)
							for j := range ops {
								if ops[j].held >= i {
									ops = ops[:j]
									break
								}
							}
							t.Inconclusive("filter outside the modelled fragment")
							goto again
						}
						if err != nil {
							want[id] = errPath
						} else {
							if len(vals) == 1 {
								if l, ok := vals[0].(A); ok {
									vals = append(A{}, l...)
								}
							}
							want[id] = parseJSON([]byte(js(vals)))
							effective++
						}
						kinds = append(kinds, o.kind+o.path.kinds()+fmt.Sprint(err != nil, len(vals)))
					case "set", "held-set":
						try := deepCopyV(final).(M)
						err := refSet(try, o.path, o.value)
						if outside(err) {
							ops = append(ops[:i:i], ops[i+1:]...)
							for j := range ops {
								if ops[j].held >= i {
									ops = ops[:j]
									break
								}
							}
							t.Inconclusive("filter outside the modelled fragment")
							goto again
						}
						if err != nil {
							want[id] = errPath
						} else {
							want[id] = 1.0
							final = try
							effective++
						}
						kinds = append(kinds, o.kind+o.path.kinds()+fmt.Sprint(err != nil))
					case "assign":
						final[o.raw] = deepCopyV(o.value)
					case "bad":
						want[id] = errPath
					}
				}
				delete(final, key)
				in := deepCopyV(doc).(M)
				in[key] = src
				whole, get, where := in, func(m M) interface{} { return m }, "$"
				if g.Intn(3) == 0 {
					whole, get, where = g.embed(in)
				}
				t.Input("%s", js(whole))
				m := jom.New()
				if err := m.Unmarshal([]byte(js(whole))); err != nil {
					t.Fail("unmarshal", "%v", err)
				}
				stdoutBuf.take()
				if p := runDoc(m); p != nil {
					t.Fail("escaped", "an error was not caught by the script: %v\n%s", p, src)
				}
				got := M{}
				for _, l := range lineRe.FindAllStringSubmatch(stdoutBuf.take(), -1) {
					if l[2] == "threw" {
						got[l[1]] = errPath
					} else if l[2] == "undefined" {
						got[l[1]] = undef{}
					} else {
						got[l[1]] = parseJSON([]byte(l[2]))
					}
				}
				for id, w := range want {
					if !same(got[id], w) {
						t.Fail("nodeset", "op %s (%v): got %s\nwant %s\nscript:\n%s", id, kinds, js(got[id]), js(w), src)
					}
				}
				if !same(get(*m.GetInsides()), final) {
					t.Fail("nodeset-result", "got  %s\nwant %s\nscript:\n%s", js(get(*m.GetInsides())), js(final), src)
				}
				t.Count("ops", len(ops))
				t.Count("effective", effective)
				if effective > 0 {
					t.Nontrivial(fmt.Sprint(where, kinds))
				}
			})
		},
	})
}
