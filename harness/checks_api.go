package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// selectionSteps is what a selection tells a script about the steps of its path.
func selectionSteps(ps json_map.AbsolutePaths) A {
	var key func(k json_map.AbsolutePathKey) interface{}
	key = func(k json_map.AbsolutePathKey) interface{} {
		m := M{"typeId": float64(k.KeyType), "typeName": json_map.AbsolutePathKeyTypeNames[k.KeyType], "key": nil}
		switch v := k.Value.(type) {
		case int:
			m["key"] = float64(v)
		case string:
			m["key"] = v
		case []json_map.AbsolutePathKey:
			l := A{}
			for _, e := range v {
				l = append(l, key(e))
			}
			m["key"] = l
		}
		return m
	}
	out := A{}
	for _, p := range ps {
		l := A{}
		for _, k := range p {
			l = append(l, key(k))
		}
		out = append(out, l)
	}
	return out
}

// builtPaths makes the absolute paths of a path in one of the ways that the API has for it.
func (g gen) builtPaths(p pathT) json_map.AbsolutePaths {
	if g.Intn(2) == 0 {
		return expectKeys(p)
	}
	// step by step
	var out json_map.AbsolutePaths
	for _, s := range p {
		var ks []json_map.AbsolutePathKey
		for _, q := range expectKeys(pathT{s}) {
			ks = append(ks, q...)
		}
		if s.kind == sFirst {
			for _, k := range ks {
				out.AddToAll(nil, false, k)
			}
			continue
		}
		out.AddToAll(nil, false, ks...)
	}
	return out
}

// oddNames gives some properties of a path names that cannot be written as text, and the document keys to match.
func (g gen) oddNames(doc M, p pathT) (M, pathT) {
	names := map[string]string{}
	q := append(pathT{}, p...)
	for i, s := range q {
		if (s.kind == sProp || s.kind == sRec) && g.Intn(2) == 0 {
			if _, ok := names[s.name]; !ok {
				names[s.name] = oddKeys[g.Intn(len(oddKeys))]
			}
			q[i].name = names[s.name]
		}
	}
	var ren func(v interface{}) interface{}
	ren = func(v interface{}) interface{} {
		switch x := v.(type) {
		case M:
			m := M{}
			for _, k := range keysOf(x) {
				n, ok := names[k]
				if !ok {
					n = k
				}
				if _, taken := m[n]; taken {
					continue
				}
				m[n] = ren(x[k])
			}
			return m
		case A:
			a := A{}
			for _, e := range x {
				a = append(a, ren(e))
			}
			return a
		}
		return v
	}
	for i, s := range q {
		if (s.kind == sProp || s.kind == sRec) && names[p[i].name] != "" {
			q[i].name = names[p[i].name]
		}
		_ = s
	}
	return ren(doc).(M), q
}

// native turns some of the numbers of a value into numbers of Go's other types.
func (g gen) native(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for _, k := range keysOf(x) {
			m[k] = g.native(x[k])
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, g.native(e))
		}
		return a
	case float64:
		switch x {
		case 9223372036854775808, 18446744073709549568:
			return uint64(x)
		case 4294967295:
			return []interface{}{uint32(x), uint64(x), int64(x)}[g.Intn(3)]
		case -9223372036854775808:
			return int64(x)
		case -128:
			return []interface{}{int8(x), int16(x), int(x)}[g.Intn(3)]
		case 0.5:
			return float32(x)
		}
		if x == float64(int(x)) && x >= 0 && x < 100 {
			switch g.Intn(9) {
			case 0, 1:
				return int(x)
			case 2:
				return int64(x)
			case 3:
				return uint8(x)
			case 4:
				return float32(x)
			case 5:
				return uint(x)
			case 6:
				return int32(x)
			}
		}
	}
	return v
}

// extremes replaces some of the numbers of a value by ones at the ends of Go's types.
func (g gen) extremes(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for _, k := range keysOf(x) {
			m[k] = g.extremes(x[k])
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, g.extremes(e))
		}
		return a
	case float64:
		if g.Intn(8) == 0 {
			return []interface{}{9223372036854775808.0, 18446744073709549568.0, 4294967295.0, -9223372036854775808.0, -128.0, 0.5}[g.Intn(6)]
		}
	}
	return v
}

func hasNative(v interface{}) bool {
	switch x := v.(type) {
	case M:
		for _, e := range x {
			if hasNative(e) {
				return true
			}
		}
	case A:
		for _, e := range x {
			if hasNative(e) {
				return true
			}
		}
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float32:
		return true
	}
	return false
}

// quietly runs f with the process's standard output going nowhere.
func quietly(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		f()
		return
	}
	old := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	f()
}

func init() {
	register(&Check{
		ID:     "C26",
		Rule:   "a case is a script that makes 1 to 4 selections, changes what they tell and give it, changes its scope and uses them again; what a selection tells about its steps is compared with the path's tree, values with the reference evaluation of the scope at that moment; non-trivial: a selection that was used again after a change, keyed by path kinds and the changes in between",
		Assume: []string{"the reference evaluation in harness/model.go", "the names of the fields are those of the code (typeId, typeName, key)"},
		Run: func(r *Runner) {
			lineRe := regexp.MustCompile(`\tR(\d+):(.*)\n`)
			r.Group("steps", r.N(1500, 40000), func(t *T) {
				g := gen{t.R, false}
				var src strings.Builder
				src.WriteString("#//!js\n")
				var want []A
				var kinds []string
				for k := 1 + g.Intn(4); k > 0; k-- {
					var p pathT
					for n := 1 + g.Intn(5); len(p) < n; {
						s := g.freeStep()
						if len(p) > 0 && p[len(p)-1].kind == sFirst && (s.kind == sFirst || s.kind == sRec) {
							continue
						}
						p = append(p, s)
					}
					fmt.Fprintf(&src, "console.log('R%d:' + JSON.stringify(json.jsonPathSelector(%s)._absolutePaths));\n", len(want), jsLit(p.render(), '"'))
					want = append(want, selectionSteps(expectKeys(p)))
					kinds = append(kinds, p.kinds())
				}
				doc := M{"zz": src.String(), "a": 1.0}
				t.Input("%s", js(doc))
				m := jm(doc)
				stdoutBuf.take()
				if p := runDoc(m); p != nil {
					t.Fail("steps-failed", "%v", p)
				}
				out := lineRe.FindAllStringSubmatch(stdoutBuf.take(), -1)
				if len(out) != len(want) {
					t.Fail("steps-output", "%d of %d selections reported", len(out), len(want))
				}
				for i, l := range out {
					if got := parseJSON([]byte(l[2])); !same(got, want[i]) {
						t.Fail("steps", "selection %d told %s\nwant %s", i, l[2], js(want[i]))
					}
				}
				t.Count("selections", len(want))
				t.Nontrivial(fmt.Sprint("steps ", kinds))
			})
			r.Group("histories", r.N(2000, 50000), func(t *T) {
				g := gen{t.R, false}
				doc := noProto(g.anyDoc()).(M)
				const key = "zz_script"
				ref := deepCopyV(doc).(M)
				var src strings.Builder
				src.WriteString("#//!js\nvar h = [], v = [], r, f;\nfunction show(i, f) { try { r = JSON.stringify(f()); } catch (e) { r = 'threw'; } console.log('R' + i + ':' + r); }\n" + spoil)
				type sel struct {
					p    pathT
					used bool
				}
				var sels []sel
				var want []interface{}
				var kinds []string
				again := false
				values := func(p pathT) (A, error) {
					with := deepCopyV(ref).(M)
					vals, err := refGet(with, p)
					if err == nil && len(vals) == 1 {
						if l, ok := vals[0].(A); ok {
							vals = append(A{}, l...)
						}
					}
					return vals, err
				}
				mentions := func(p pathT) bool { // the script itself is part of the scope
					for _, s := range p {
						switch s.kind {
						case sWildDot, sWildIdx, sFilter:
							return true
						}
					}
					return false
				}
				for k := 1 + g.Intn(4); k > 0; k-- {
					p := g.path(ref, 1+g.Intn(4))
					if mentions(p[:1]) || hasKind(p, sFilter) {
						continue
					}
					fmt.Fprintf(&src, "h.push(json.jsonPathSelector(%s));\n", jsLit(p.render(), '"'))
					sels = append(sels, sel{p: p})
				}
				if len(sels) == 0 {
					return
				}
				for k := 2 + g.Intn(8); k > 0; k-- {
					i := g.Intn(len(sels))
					s := &sels[i]
					switch op := g.Intn(10); op {
					case 9:
						// the scope cannot be selected from for a moment
						broken := []string{"undefined", "function() {}", "5", "'text'", "true", "null", "circular", "{toJSON: function() { throw 1; }}", "{toJSON: function() {}}", "NaN"}[g.Intn(10)]
						use := []string{"h[%d].getValues()", "h[%d].setValues({a: 1})", "h[%d].setValues(null)", "json.jsonPathSelector('$.a').getValues(h[%d])"}[g.Intn(4)]
						fmt.Fprintf(&src, "show(%d, function() { var keep = json.trail, circular = {}, bad, failed; circular.c = circular; bad = %s; json.trail = bad; try { "+use+"; } catch (e) { failed = true; } if (json.trail !== bad && bad === bad && bad !== null) { console.log('replaced'); } json.trail = keep; if (failed) throw 1; return 'silent'; });\n", len(want), broken, i)
						want = append(want, errPath)
						kinds = append(kinds, "broken-scope")
					case 0, 1, 2:
						call := []string{"h[%d].getValues()", "h[%d]['getValues']()", "(f = h[%d].getValues, f())", "h[%d].getValues.call(null)"}[g.Intn(4)]
						fmt.Fprintf(&src, "show(%d, function() { v[%d] = "+call+"; return v[%d]; });\n", len(want), i, i, i)
						vals, err := values(s.p)
						if err != nil {
							want = append(want, errPath)
						} else {
							want = append(want, parseJSON([]byte(js(vals))))
						}
						again = again || s.used
						s.used = true
						kinds = append(kinds, "get "+s.p.kinds())
					case 3:
						// what it gave is changed
						fmt.Fprintf(&src, "spoil(v[%d]);\n", i)
						kinds = append(kinds, "spoil-values")
					case 4:
						fmt.Fprintf(&src, "spoil(h[%d]._absolutePaths);\n", i)
						kinds = append(kinds, "spoil-steps")
					case 5:
						// the scope is replaced by an equal or another one
						if g.Intn(2) == 0 {
							src.WriteString("json.trail = JSON.parse(JSON.stringify(json.trail));\n")
							kinds = append(kinds, "replace-equal")
							break
						}
						k := g.key()
						val := noProto(g.value(2))
						if k == "__proto__" || k == key {
							break
						}
						fmt.Fprintf(&src, "json.trail[%s] = %s;\n", jsLit(k, '"'), toJS(val))
						ref[k] = deepCopyV(val)
						kinds = append(kinds, "assign")
					case 6, 7:
						val := noProto(g.value(g.Intn(3)))
						given := toJS(val)
						if g.Intn(4) == 0 {
							// deleted
							val, given = nil, []string{"null", "undefined"}[g.Intn(2)]
						}
						try := deepCopyV(ref).(M)
						err := refSet(try, s.p, val)
						fmt.Fprintf(&src, "show(%d, function() { f = %s; h[%d].setValues(f); spoil([f]); return 1; });\n", len(want), given, i)
						if err != nil {
							want = append(want, errPath)
						} else {
							want = append(want, 1.0)
							ref = try
						}
						again = again || s.used
						s.used = true
						kinds = append(kinds, "set "+s.p.kinds())
					case 8:
						// refused without an effect
						bad := []string{"h[%d].setValues()", "h[%d].setValues(1, 2)", "json.jsonPathSelector('$.a', h[%d])"}[g.Intn(3)]
						fmt.Fprintf(&src, "show(%d, function() { return "+bad+"; });\n", len(want), i)
						want = append(want, errPath)
						kinds = append(kinds, "refused")
					}
				}
				in := deepCopyV(doc).(M)
				in[key] = src.String()
				whole, get, where := g.embed(in)
				t.Input("%s", js(whole))
				m := jm(whole)
				stdoutBuf.take()
				if p := runDoc(m); p != nil {
					t.Fail("escaped", "%v\n%s", p, src.String())
				}
				printed := stdoutBuf.take()
				if strings.Contains(printed, "\treplaced\n") {
					t.Fail("refused-changed", "a selection that was refused replaced the scope\n%s", src.String())
				}
				out := lineRe.FindAllStringSubmatch(printed, -1)
				if len(out) != len(want) {
					t.Fail("output", "%d of %d results reported:\n%s", len(out), len(want), src.String())
				}
				for i, l := range out {
					var got interface{} = errPath
					if l[2] != "threw" {
						got = parseJSON([]byte(l[2]))
					}
					if !same(got, want[i]) {
						t.Fail("values", "result %d is %s, want %s\n%s", i, l[2], js(want[i]), src.String())
					}
				}
				if !same(get(*m.GetInsides()), ref) {
					t.Fail("result", "got  %s\nwant %s\n%s", js(get(*m.GetInsides())), js(ref), src.String())
				}
				t.Count("uses", len(want))
				if again {
					t.Nontrivial(fmt.Sprint(where, kinds))
				}
			})
		},
	})

	register(&Check{
		ID:     "C27",
		Rule:   "a case is a document and 1 to 3 lists of steps built by hand or with AddToAll (names that no path text can express included), got and set together, compared with the reference evaluation of the same steps and, where it can be written, with the path's text; non-trivial: a value was selected or a location set, keyed by step kinds",
		Assume: []string{"the reference evaluation in harness/model.go"},
		Run: func(r *Runner) {
			r.Group("get-and-set", r.N(6000, 150000), func(t *T) {
				g := gen{t.R, t.R.Intn(2) == 0}
				doc := g.anyDoc()
				var paths []pathT
				p0 := g.path(doc, 1+g.Intn(5))
				odd := !hasKind(p0, sFilter) && g.Intn(2) == 0
				if odd {
					doc, p0 = g.oddNames(doc, p0)
				}
				paths = append(paths, p0)
				for g.Intn(3) == 0 && len(paths) < 3 {
					paths = append(paths, g.path(doc, 1+g.Intn(3)))
				}
				var built json_map.AbsolutePaths
				var want A
				var werr error
				var kinds []string
				for _, p := range paths {
					b := g.builtPaths(p)
					if exp := expectKeys(p); keyStr(b) != keyStr(exp) {
						t.Input("steps %s", keyStr(exp))
						t.Fail("add-to-all", "AddToAll made\n%swant\n%s", keyStr(b), keyStr(exp))
					}
					built = append(built, b...)
					vals, err := refGet(deepCopyV(doc).(M), p)
					if outside(err) {
						t.Inconclusive("filter outside the modelled fragment")
						return
					}
					if err != nil {
						werr = err
					}
					want = append(want, vals...)
					kinds = append(kinds, p.kinds())
				}
				t.Input("doc=%s steps=%s", js(doc), keyStr(built))
				before := keyStr(built)
				m := jm(doc)
				nodes, errs := m.GetAbsolutePaths(&built)
				if (errs != nil) != (werr != nil) {
					t.Fail("get-error", "errors %v, values %s, want %v", errs, js(valuesOf(nodes)), werr)
				}
				if errs != nil && len(nodes) > 0 {
					t.Fail("get-partial", "values %s together with errors %v", js(valuesOf(nodes)), errs)
				}
				if werr == nil && !(len(nodes) == 0 && len(want) == 0) && !same(valuesOf(nodes), want) {
					t.Fail("get-values", "got  %s\nwant %s", js(valuesOf(nodes)), js(want))
				}
				if !same(*m.GetInsides(), doc) {
					t.Fail("get-changed", "the document is now %s", js(*m.GetInsides()))
				}
				if keyStr(built) != before {
					t.Fail("get-paths-changed", "the steps are now %s", keyStr(built))
				}
				// the texts of the same paths
				if !odd {
					var texts A
					terr := false
					for _, p := range paths {
						ns, err := m.JsonPathSelector(p.render())
						terr = terr || err != nil
						texts = append(texts, valuesOf(ns)...)
					}
					if terr != (errs != nil) || errs == nil && len(nodes)+len(texts) > 0 && !same(texts, valuesOf(nodes)) {
						t.Fail("get-text", "the written paths give %s (error: %v), the steps %s (%v)", js(texts), terr, js(valuesOf(nodes)), errs)
					}
				}
				if werr == nil && len(want) > 0 {
					t.Nontrivial(fmt.Sprint("get ", odd, kinds))
					t.Count("values", len(want))
				}
				// the same steps set
				var value interface{}
				if g.Intn(3) > 0 {
					value = g.value(g.Intn(3))
				}
				ref := deepCopyV(doc).(M)
				var serr error
				for _, p := range paths {
					if serr = refSet(ref, p, value); serr != nil {
						break
					}
				}
				if outside(serr) {
					return
				}
				m = jm(doc)
				err := m.SetAbsolutePaths(&built, value)
				if (err != nil) != (serr != nil) {
					t.Fail("set-error", "setting %s: error %v, want %v; document %s", js(value), err, serr, js(*m.GetInsides()))
				}
				if keyStr(built) != before {
					t.Fail("set-paths-changed", "the steps are now %s", keyStr(built))
				}
				if serr != nil {
					return
				}
				if !same(*m.GetInsides(), ref) {
					t.Fail("set", "setting %s: got  %s\nwant %s", js(value), js(*m.GetInsides()), js(ref))
				}
				if !same(ref, doc) {
					t.Nontrivial(fmt.Sprint("set ", odd, value == nil, kinds))
					t.Count("sets", 1)
				}
			})
			// AddToAll: every combination, in order, checked against the document if that is asked for
			r.Group("add-to-all", r.N(3000, 60000), func(t *T) {
				g := gen{t.R, true}
				doc := g.anyDoc()
				m := jm(doc)
				var ps json_map.AbsolutePaths
				var want [][]json_map.AbsolutePathKey
				var kinds []string
				for k := 1 + g.Intn(5); k > 0; k-- {
					var ks []json_map.AbsolutePathKey
					switch g.Intn(4) {
					case 0:
						for n := g.Intn(4); n > 0; n-- {
							ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: g.Intn(3)})
						}
					case 1:
						ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.Wildcard})
					default:
						for n := 1 + g.Intn(2)*g.Intn(3); n > 0; n-- {
							name := g.key()
							if len(kinds) == 0 && len(doc) > 0 {
								name = keysOf(doc)[g.Intn(len(doc))]
							}
							ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: name})
						}
					}
					if len(want) == 0 {
						for _, x := range ks {
							want = append(want, []json_map.AbsolutePathKey{x})
						}
					} else if len(ks) > 0 {
						var next [][]json_map.AbsolutePathKey
						for _, p := range want {
							for _, x := range ks {
								next = append(next, append(append([]json_map.AbsolutePathKey{}, p...), x))
							}
						}
						want = next
					}
					if len(want) > 200 {
						return
					}
					t.Input("doc=%s adding %v to %v", js(doc), ks, ps)
					check := g.Intn(3) == 0
					errs := ps.AddToAll(m, check, ks...)
					if !reflect.DeepEqual([][]json_map.AbsolutePathKey(ps), want) {
						t.Fail("combinations", "got  %v\nwant %v", ps, want)
					}
					werrs := false
					for _, p := range want {
						_, e := m.GetAbsolutePaths(&json_map.AbsolutePaths{p})
						werrs = werrs || e != nil
					}
					if !check && errs != nil || check && len(ks) > 0 && (errs != nil) != werrs {
						t.Fail("checked", "check=%v gave the errors %v, although a path cannot be followed: %v", check, errs, werrs)
					}
					if !same(*m.GetInsides(), doc) {
						t.Fail("add-changed", "the document is now %s", js(*m.GetInsides()))
					}
					kinds = append(kinds, fmt.Sprint(len(ks), check, errs != nil))
				}
				t.Count("paths", len(want))
				t.Nontrivial(fmt.Sprint("add ", kinds))
			})
			// several sets of paths that start from the same steps (those of another set, or the address that a query gave):
			// what is added to one doesn't show up in the others
			r.Group("from-the-same-steps", r.N(3000, 60000), func(t *T) {
				g := gen{t.R, true}
				doc := g.anyDoc()
				m := jm(doc)
				var sets []json_map.AbsolutePaths
				var want []string
				show := func(ps json_map.AbsolutePaths) string { return fmt.Sprint([][]json_map.AbsolutePathKey(ps)) }
				p := g.path(doc, 1+g.Intn(6))
				from := "built"
				log := ""
				if g.Intn(2) == 0 {
					b := g.builtPaths(p)
					sets = append(sets, b)
				} else {
					from = "queried"
					nodes, err := m.JsonPathSelector(p.render())
					if err != nil || len(nodes) == 0 {
						return
					}
					for k := 0; k < 2+g.Intn(2); k++ {
						n := nodes[g.Intn(len(nodes))]
						sets = append(sets, json_map.AbsolutePaths{n.Absolute})
					}
				}
				for _, s := range sets {
					want = append(want, show(s))
				}
				for k := 0; k < 2+g.Intn(6); k++ {
					i := g.Intn(len(sets))
					if g.Intn(3) == 0 && len(sets) < 6 {
						// another set that starts with the same steps
						sets = append(sets, append(json_map.AbsolutePaths{}, sets[i]...))
						want = append(want, want[i])
						log += fmt.Sprintf("set %d from the steps of set %d\n", len(sets)-1, i)
						continue
					}
					var ks []json_map.AbsolutePathKey
					for n := 1 + g.Intn(2)*g.Intn(3); n > 0; n-- {
						if g.Intn(3) == 0 {
							ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: g.Intn(3)})
						} else {
							ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: g.key()})
						}
					}
					var next json_map.AbsolutePaths
					for _, p := range sets[i] {
						for _, x := range ks {
							next = append(next, append(append([]json_map.AbsolutePathKey{}, p...), x))
						}
					}
					if len(sets[i]) == 0 {
						for _, x := range ks {
							next = append(next, []json_map.AbsolutePathKey{x})
						}
					}
					if len(next) > 100 {
						break
					}
					want[i] = show(next)
					log += fmt.Sprintf("set %d: add %v\n", i, ks)
					sets[i].AddToAll(m, g.Intn(3) == 0, ks...)
					t.Input("doc=%s path=%s %s\n%s", js(doc), p.render(), from, log)
					for j, s := range sets {
						if show(s) != want[j] {
							t.Fail("shared-steps", "set %d is\n%s\nwant\n%s", j, show(s), want[j])
						}
					}
				}
				t.Count("sets-of-paths", len(sets))
				t.Nontrivial(from + log)
			})
		},
	})

	register(&Check{
		ID:     "C28",
		Rule:   "a case is a document with scripts that is evaluated in some 12 ways (Eval plain and verbose, from JSON, Hjson and the document's own writing, read and run, made from a map, cloned, searched before, within another document and an array, in a used object, marked up step by step); results, traces and failures are compared with one another; non-trivial: at least one script ran, keyed by their number, the outcome and the shape of the result",
		Assume: []string{"scripts use neither clock nor random numbers"},
		Run: func(r *Runner) {
			r.Group("ways", r.N(250, 6000), func(t *T) {
				g := gen{t.R, true}
				s := &sgen{gen: g, budget: 1 + g.Intn(8), replace: g.Intn(3) == 0}
				model := s.doc()
				var root interface{} = toReal(model, false, nil)
				failing := g.Intn(4) == 0
				if failing {
					// one of the scripts fails
					var ms []M
					var walk func(v interface{})
					walk = func(v interface{}) {
						switch x := v.(type) {
						case M:
							for _, k := range keysOf(x) {
								if _, ok := x[k].(M); ok {
									ms = append(ms, x[k].(M))
								}
								walk(x[k])
							}
						case A:
							for _, e := range x {
								if m, ok := e.(M); ok {
									ms = append(ms, m)
								}
								walk(e)
							}
						}
					}
					walk(root)
					in := root.(M)
					if len(ms) > 0 {
						in = ms[g.Intn(len(ms))]
					}
					in["broken"] = []string{"#//!js\nthrow 'broken';", "#//!js\n}{", "#//!js\nnothing.at.all;", "#//!js\njson.jsonPathSelector('x');"}[g.Intn(4)]
				}
				array := g.Intn(4) == 0
				if array {
					root = A{root, 1.0, A{toReal(s.sobj(1), false, nil)}}
				}
				src := js(root)
				t.Input("%s", src)
				type outcome struct {
					out string
					evs string
					err string
				}
				base := func(prefix string) string {
					if array && prefix != "$" {
						return "$.array"
					}
					return "$"
				}
				strip := func(evs []event, prefix string) string {
					var b strings.Builder
					for _, e := range evs {
						sc := strings.Replace(e.scope, prefix, base(prefix), 1)
						fmt.Fprintf(&b, "%s@%s;", e.id, sc)
					}
					return b.String()
				}
				finish := func(prefix string, out []byte, p interface{}) outcome {
					o := outcome{evs: strip(jsEvents(stdoutBuf.take()), prefix)}
					stderrBuf.take()
					if p != nil {
						o.err = fmt.Sprint(p)
						o.err = strings.Replace(strings.TrimPrefix(o.err, "Error occured while evaluating JSON-DOM: "), prefix, base(prefix), -1)
						if len(out) > 0 {
							t.Fail("output-with-error", "%s together with %v", out, p)
						}
					} else {
						o.out = js(parseJSON(out))
					}
					return o
				}
				byEval := func(text string, verbose bool) outcome {
					stdoutBuf.take()
					var out []byte
					var err error
					quietly(func() { out, err = jom.Eval([]byte(text), verbose) })
					if err != nil {
						return finish("$", out, err)
					}
					return finish("$", out, nil)
				}
				run := func(m *jom.JsonMap, prefix string) outcome {
					stdoutBuf.take()
					if p := runDoc(m); p != nil {
						return finish(prefix, nil, p)
					}
					out, err := m.Marshal()
					if err != nil {
						t.Fail("marshal", "%v", err)
					}
					return finish(prefix, out, nil)
				}
				read := func(text string) *jom.JsonMap {
					m := jom.New()
					if err := m.Unmarshal([]byte(text)); err != nil {
						t.Fail("unmarshal", "%v: %s", err, text)
					}
					return m
				}
				ref := byEval(src, false)
				if failing && ref.err == "" {
					// an earlier script removed the one that fails
					failing = false
				}
				n := strings.Count(ref.evs, ";")
				compare := func(way string, o outcome) {
					t.Count("evaluations", 1)
					if (o.err != "") != (ref.err != "") {
						t.Fail("way-failure", "%s ended with %q, Eval with %q", way, o.err, ref.err)
					}
					if o.out != ref.out {
						t.Fail("way-result", "%s gave\n%s\nEval gave\n%s", way, o.out, ref.out)
					}
					if o.evs != ref.evs {
						t.Fail("way-trace", "%s ran %s, Eval ran %s", way, o.evs, ref.evs)
					}
					if o.err != ref.err {
						t.Fail("way-message", "%s ended with\n%s\nEval with\n%s", way, o.err, ref.err)
					}
				}
				compare("Eval, verbose", byEval(src, true))
				compare("Eval of another notation", byEval(renderJSON(g, root), false))
				compare("Eval of Hjson", byEval(renderHjson(g, root, true), false))
				m := read(src)
				written := m.String()
				compare("Eval of the document's own writing", byEval(written, g.Intn(2) == 0))
				again, err := m.Marshal()
				if err != nil {
					t.Fail("marshal", "%v", err)
				}
				compare("Eval of the document's JSON", byEval(string(again), false))
				clone := m.Clone(false)
				m.FindScriptFields()
				compare("reading and running", run(m, "$"))
				compare("running a clone", run(clone.(*jom.JsonMap), "$"))
				used := read([]string{`{"x": [1, {"y": "#//!js\n1"}]}`, `[1, 2, {"a": {}}]`, `{}`}[g.Intn(3)])
				used.FindScriptFields()
				if g.Intn(2) == 0 {
					used.Run()
				}
				if err := used.Unmarshal([]byte(src)); err != nil {
					t.Fail("unmarshal", "%v: %s", err, src)
				}
				compare("running in a used object", run(used, "$"))
				if !array {
					compare("running a map", run(jom.NewFromMap(deepCopyV(root).(M)), "$"))
					// put together location by location
					bare := jom.New()
					*bare.GetInsides() = M{}
					for _, k := range g.Perm(len(root.(M))) {
						name := keysOf(root.(M))[k]
						v := root.(M)[name]
						if v == nil {
							(*bare.GetInsides())[name] = nil
							continue
						}
						body, isScript := "", false
						if str, ok := v.(string); ok && strings.HasPrefix(str, "#//!js\n") {
							body, isScript = str[len("#//!js\n"):], pathable(name)
						}
						if isScript {
							if err := bare.MarkupCode("$."+name, "js", body); err != nil {
								t.Fail("markup", "%v", err)
							}
						} else if err := bare.SetAbsolutePaths(&json_map.AbsolutePaths{{{KeyType: json_map.StringKey, Value: name}}}, v); err != nil {
							t.Fail("put-together", "%v", err)
						}
					}
					compare("running what was put together", run(bare, "$"))
				}
				// within other documents
				inner := func(way string, o outcome, get func(interface{}) interface{}) {
					if o.err == "" {
						o.out = js(get(parseJSON([]byte(o.out))))
					}
					compare(way, o)
				}
				if array {
					inner("running within an object", run(read(js(M{"w": root, "x": 1.0})), "$.w"), func(v interface{}) interface{} { return v.(M)["w"] })
				} else {
					inner("running within an object", run(read(js(M{"w": M{"v": root}, "x": 1.0})), "$.w.v"), func(v interface{}) interface{} { return v.(M)["w"].(M)["v"] })
					inner("running within an array", run(read(js(A{A{"x", root}, 1.0})), "$.array.[0].[1]"), func(v interface{}) interface{} { return v.(A)[0].(A)[1] })
				}
				if ref.err == "" {
					done := byEval(ref.out, false)
					if done.out != ref.out || done.evs != "" || done.err != "" {
						t.Fail("again", "evaluating the result gave %s %s %s", done.out, done.evs, done.err)
					}
				}
				t.Count("scripts", n)
				if n > 0 {
					t.Nontrivial(fmt.Sprint(n, ref.err != "", array, clip(shapes(parseOr(ref.out), 2), 40)))
				}
			})
		},
	})

	register(&Check{
		ID:     "C29",
		Rule:   "a case is a random document in which some numbers have another of Go's types than float64; queries, filters, sets, pushes, pops, clones, writing and scripts are compared with what they do to the document's JSON, and values that are only moved have to keep their type; non-trivial: a value of such a type was selected, changed or seen by a script, keyed by what was done",
		Assume: []string{"the reference evaluation in harness/model.go"},
		Run: func(r *Runner) {
			r.Group("paths", r.N(4000, 100000), func(t *T) {
				g := gen{t.R, t.R.Intn(2) == 0}
				plain := g.extremes(g.anyDoc()).(M)
				doc := g.native(plain).(M)
				m := jom.NewFromMap(deepCopyV(doc).(M))
				for k := 0; k < 5; k++ {
					p := g.path(plain, 1+g.Intn(4))
					t.Input("doc=%s path=%s", goStr(doc), p.render())
					want, werr := refGet(plain, p)
					if outside(werr) {
						continue
					}
					got, err := m.JsonPathSelector(p.render())
					if (err != nil) != (werr != nil) {
						t.Fail("get-error", "got %s (%v), want %s (%v)", js(valuesOf(got)), err, js(want), werr)
					}
					if werr != nil {
						continue
					}
					if !same(jsonish(valuesOf(got)), jsonish(want)) {
						t.Fail("get-values", "got  %s\nwant %s", js(valuesOf(got)), js(want))
					}
					{
						nativeNumbers = true
						nat, _ := refGet(doc, p)
						nativeNumbers = false
						if !same(valuesOf(got), nat) {
							t.Fail("get-types", "got  %s\nwant %s", goStr(valuesOf(got)), goStr(nat))
						}
					}
					if hasNative(valuesOf(got)) {
						t.Nontrivial("get " + p.kinds())
						t.Count("values", len(want))
					}
					// set
					pv := g.value(g.Intn(2))
					nv := g.native(pv)
					pref := deepCopyV(plain).(M)
					serr := refSet(pref, p, pv)
					if outside(serr) {
						continue
					}
					mm := m.Clone(false)
					err = mm.JsonPathSetter(p.render(), nv)
					if (err != nil) != (serr != nil) {
						t.Fail("set-error", "setting %s: %v, want %v", goStr(nv), err, serr)
					}
					if !same(*m.GetInsides(), doc) {
						t.Fail("clone-set", "setting in a clone changed the original to %s", goStr(*m.GetInsides()))
					}
					if serr != nil {
						continue
					}
					if !same(jsonish(*mm.GetInsides()), jsonish(pref)) {
						t.Fail("set", "setting %s: got %s\nwant %s", goStr(nv), js(*mm.GetInsides()), js(pref))
					}
					{
						nref := deepCopyV(doc).(M)
						nativeNumbers = true
						refSet(nref, p, nv)
						nativeNumbers = false
						if !same(*mm.GetInsides(), nref) {
							t.Fail("set-types", "setting %s: got %s\nwant %s", goStr(nv), goStr(*mm.GetInsides()), goStr(nref))
						}
					}
					if hasNative(nv) && !same(pref, plain) {
						t.Nontrivial("set " + p.kinds())
						t.Count("sets", 1)
					}
				}
				// writing
				out, err := m.Marshal()
				if err != nil || !same(parseJSON(out), jsonish(plain)) {
					t.Fail("marshal", "%s (%v), want %s", out, err, js(plain))
				}
				back := jom.New()
				text := m.String()
				if err := back.Unmarshal([]byte(text)); err != nil || !same(*back.GetInsides(), jsonish(plain)) {
					t.Fail("string", "%s (%v), want %s", text, err, js(plain))
				}
				if m.FindScriptFields() {
					t.Fail("find", "scripts found")
				}
				m.Strip()
				m.Run()
				if !same(*m.GetInsides(), doc) {
					t.Fail("run-without-scripts", "got %s, want %s", goStr(*m.GetInsides()), goStr(doc))
				}
			})
			r.Group("lists", r.N(1500, 40000), func(t *T) {
				g := gen{t.R, false}
				plain := A{}
				for k := g.Intn(6); k > 0; k-- {
					plain = append(plain, g.value(1))
				}
				list := g.native(plain).(A)
				m := jom.NewFromMap(M{"l": deepCopyV(list)})
				var kinds []string
				for k := 1 + g.Intn(5); k > 0; k-- {
					if g.Intn(2) == 0 || len(list) == 0 {
						v := g.native(g.value(1))
						i := g.Intn(len(list) + 1)
						t.Input("list=%s push %s at %d", goStr(list), goStr(v), i)
						if p := caught(func() { m.MustPush("$.l", v, i) }); p != nil {
							t.Fail("push-panic", "%v", p)
						}
						list = modelPush(list, v, []int{i})
						kinds = append(kinds, fmt.Sprintf("push %T", v))
					} else {
						i := g.Intn(len(list))
						t.Input("list=%s pop %d", goStr(list), i)
						var popped A
						if p := caught(func() { popped = m.MustPop("$.l", i) }); p != nil {
							t.Fail("pop-panic", "%v", p)
						}
						var want A
						list, want = modelPop(list, []int{i})
						if !same(popped, want) {
							t.Fail("pop", "popped %s, want %s", goStr(popped), goStr(want))
						}
						kinds = append(kinds, "pop")
					}
					if got := (*m.GetInsides())["l"].(A); !(len(got) == 0 && len(list) == 0) && !same(got, list) {
						t.Fail("list", "got %s, want %s", goStr(got), goStr(list))
					}
				}
				t.Nontrivial(fmt.Sprint("list ", kinds))
			})
			r.Group("scripts", r.N(800, 20000), func(t *T) {
				g := gen{t.R, true}
				plain := noProto(g.obj(1 + g.Intn(3))).(M)
				delete(plain, "zz script")
				doc := g.native(plain).(M)
				in := deepCopyV(doc).(M)
				in["zz script"] = "#//!js\n" + eqProbe + "(function() { var c = JSON.parse(JSON.stringify(json.trail)); delete c['zz script']; if (!eq(c, " + toJS(plain) + ")) throw 'saw ' + JSON.stringify(c); json.trail.sum = 0; for (var k in c) if (typeof c[k] === 'number') json.trail.sum += c[k]; })();\n"
				want := deepCopyV(plain).(M)
				sum := 0.0
				for _, k := range keysOf(plain) {
					if f, ok := plain[k].(float64); ok {
						sum += f
					}
				}
				_ = sum
				whole, get, where := g.embed(in)
				t.Input("%s", goStr(whole))
				m := jom.NewFromMap(whole)
				if p := runDoc(m); p != nil {
					t.Fail("script", "%v", p)
				}
				got := jsonish(get(*m.GetInsides())).(M)
				delete(got, "sum")
				delete(want, "sum")
				if !same(got, jsonish(want)) {
					t.Fail("script-result", "got %s, want %s", js(got), js(want))
				}
				if hasNative(doc) {
					t.Nontrivial(fmt.Sprint("script ", where, clip(shapes(doc, 2), 40)))
				}
			})
		},
	})

	register(&Check{
		ID:     "C30",
		Rule:   "a case is a random document with Go callbacks in several of its objects, each of which makes a random sequence of calls of the interface it is given; what the calls give, the scope path, the order of the callbacks and the document afterwards are compared with the same calls made on documents that consist of just the scope; non-trivial: a call was made, keyed by the kinds of calls and places",
		Assume: []string{"the calls themselves are judged by the other checks", "callbacks and scripts of other languages are not mixed in a document, as the documentation says"},
		Run: func(r *Runner) {
			r.Group("scopes", r.N(2500, 60000), func(t *T) {
				g := gen{t.R, t.R.Intn(3) == 0}
				var log []string
				where := ""
				var doc interface{} = g.anyDoc()
				array := g.Intn(4) == 0
				if array {
					doc = M{"array": g.arr(3)}
				}
				// callbacks at random objects
				var objs []M
				var walk func(v interface{}, root bool)
				walk = func(v interface{}, root bool) {
					switch x := v.(type) {
					case M:
						if !root || !array {
							objs = append(objs, x)
						}
						for _, k := range keysOf(x) {
							walk(x[k], false)
						}
					case A:
						for _, e := range x {
							walk(e, false)
						}
					}
				}
				walk(doc, true)
				if len(objs) == 0 {
					return
				}
				kinds := map[string]int{}
				var fails []string
				calls := 0
				for k := 1 + g.Intn(5); k > 0; k-- {
					o := objs[g.Intn(len(objs))]
					if g.Intn(3) == 0 {
						o = objs[0]
					}
					key := []string{"cb", "a", "zz", "Cb", "name", "0", "#", "a b"}[g.Intn(8)]
					if isFunc(o[key]) || nested(o[key]) {
						continue
					}
					seed := g.Int63()
					o[key] = func(j json_map.JsonMapInt) {
						calls++
						at := where
						if scopeOf {
							at = j.GetCurrentScopePath()
						}
						log = append(log, at+" "+key+": "+callbackCalls(newRand(seed), j, kinds, &fails))
					}
				}
				if countFuncs(doc) == 0 {
					return
				}
				t.Input("%s", goStr(doc))
				m := jom.NewFromMap(deepCopyV(doc).(M))
				m.Array = array
				// the scopes one by one, each as a document of its own
				sim := deepCopyV(doc)
				start := time.Now()
				simulateCallbacks(&sim, "$", &where)
				if time.Since(start) > 500*time.Millisecond {
					return // many filters of many members, which are too close to the limit for a callback
				}
				want := log
				log = nil
				where = ""
				// in the document; the scope is what the interface tells
				calls = 0
				scopeOf = true
				p := runDoc(m)
				scopeOf = false
				if p != nil {
					t.Fail("run", "%v", p)
				}
				if len(fails) > 0 {
					t.Fail("call", "%s", fails[0])
				}
				for i := range want {
					if i >= len(log) || log[i] != want[i] {
						got := "nothing"
						if i < len(log) {
							got = log[i]
						}
						t.Fail("calls", "callback number %d did\n%s\nwant\n%s", i, clip(got, 3000), clip(want[i], 3000))
					}
				}
				if len(log) != len(want) {
					t.Fail("more-calls", "%d callbacks ran, want %d", len(log), len(want))
				}
				if got := *m.GetInsides(); goStr(got) != goStr(sim) {
					t.Fail("document", "got  %s\nwant %s", goStr(got), goStr(sim))
				}
				t.Count("callbacks", calls)
				for k, n := range kinds {
					t.Count(k, n)
				}
				t.Nontrivial(fmt.Sprint(kinds, array, clip(shapes(withoutFuncs(doc), 2), 60)))
			})
		},
	})
}

// scopeOf is whether callbacks tell the scope path of the interface they are given.
var scopeOf bool

// simulateCallbacks runs the callbacks in a value, each on a document that consists of its scope.
func simulateCallbacks(v *interface{}, scope string, where *string) {
	switch x := (*v).(type) {
	case M:
		var queue []string
		for _, k := range keysOf(x) {
			if isFunc(x[k]) {
				queue = append(queue, k)
			}
		}
		fs := map[string]func(json_map.JsonMapInt){}
		for _, k := range queue {
			fs[k] = x[k].(func(json_map.JsonMapInt))
		}
		for _, k := range queue {
			m := jom.NewFromMap(x)
			*where = scope
			fs[k](m)
			x = *m.GetInsides()
			delete(x, k)
		}
		for _, k := range keysOf(x) {
			e := x[k]
			simulateCallbacks(&e, scope+"."+k, where)
			if nested(e) {
				x[k] = e
			}
		}
		*v = x
	case A:
		for i := range x {
			simulateCallbacks(&x[i], fmt.Sprintf("%s.[%d]", scope, i), where)
		}
	}
}

// callbackCalls makes calls of an interface that depend on its content and the random numbers only, and tells what they gave.
func callbackCalls(rnd *rand.Rand, j json_map.JsonMapInt, kinds map[string]int, fails *[]string) string {
	g := gen{rnd, false}
	var b strings.Builder
	content := func() M { return withoutFuncs(deepCopyV(*j.GetInsides())).(M) }
	for n := 1 + g.Intn(6); n > 0; n-- {
		doc := content()
		path := g.path(doc, 1+g.Intn(3))
		p := path.render()
		v := g.value(g.Intn(3))
		id := fmt.Sprint("id", g.Intn(1000))
		reading := false
		before := goStr(*j.GetInsides())
		kind := ""
		say := func(k, format string, a ...interface{}) {
			kind = k
			fmt.Fprintf(&b, "\n\t%s %s: %s", k, p, fmt.Sprintf(format, a...))
		}
		out := func(v interface{}) string { return goStr(withoutFuncs(v)) }
		failed := caught(func() {
			switch g.Intn(20) {
			case 0, 1:
				reading = true
				nodes, err := j.JsonPathSelector(p)
				say("get", "%s %v", out(valuesOf(nodes)), err)
			case 2:
				reading = true
				kind = "mustget"
				say("mustget", "%s", out(A(j.MustGet(p))))
			case 3, 4:
				say("set", "%v", j.JsonPathSetter(p, v))
			case 5:
				kind = "mustset"
				j.MustSet(p, v)
				say("mustset", "")
			case 6:
				kind = "delete"
				j.MustDelete(p)
				say("delete", "")
			case 7:
				kind = "push"
				j.MustPush(p, v, g.Intn(4))
				say("push", "")
			case 8:
				kind = "pop"
				say("pop", "%s", out(A(j.MustPop(p, g.Intn(3)))))
			case 9:
				reading = true
				keys := expectKeys(path)
				nodes, errs := j.GetAbsolutePaths(&keys)
				say("getabs", "%s %v", out(valuesOf(nodes)), errs)
			case 10:
				keys := expectKeys(path)
				say("setabs", "%v", j.SetAbsolutePaths(&keys, v))
			case 11:
				// a clone is another document
				reading = true
				c := j.Clone(false)
				err := c.JsonPathSetter(p, v)
				for _, k := range keysOf(*c.GetInsides()) {
					if x, ok := (*c.GetInsides())[k].(M); ok {
						x["in the clone"] = true
					}
				}
				(*c.GetInsides())["cloned"] = id
				say("clone", "%s %v %v %v", out(*c.GetInsides()), err, c.IsArray(), c.GetCurrentScopePath() == j.GetCurrentScopePath())
			case 12:
				reading = true
				c := j.Clone(true)
				_ = c.JsonPathSetter("$.x", v)
				say("cleared", "%s %v", out(*c.GetInsides()), c.IsArray())
			case 13:
				reading = true
				say("find", "%v %v", j.FindScriptFields(), j.IsArray())
			case 14:
				j.Strip()
				say("strip", "")
			case 15:
				(*j.GetInsides())[id] = v
				if g.Intn(2) == 0 {
					delete(*j.GetInsides(), keysOf(*j.GetInsides())[0])
				}
				say("insides", "")
			case 16:
				if g.Intn(2) == 0 {
					*j.GetInsides() = M{id: v, "kept": content()}
				} else {
					_ = j.Unmarshal([]byte(js(M{id: v, "read": doc})))
				}
				say("replaced", "")
			case 17:
				// other documents
				reading = true
				res, err := jom.Eval([]byte(js(M{"v": v, "s": "#//!js\njson.trail.n = Object.keys(json.trail).length; json.trail.p = json.scopePath;"})), false)
				inner := jom.NewFromMap(M{"x": M{"cb": func(k json_map.JsonMapInt) { k.MustSet("$.r", k.GetCurrentScopePath()) }}})
				inner.Run()
				say("eval", "%s %v %s", res, err, out(*inner.GetInsides()))
			case 18:
				// the content without callbacks, written, read, marked up and run
				reading = true
				c := j.Clone(false)
				*c.GetInsides() = content()
				err := c.MarkupCode("$.mk", "js", "json.trail.n = Object.keys(json.trail).length;")
				c.Run()
				text, merr := c.Marshal()
				say("markup", "%s %v %v %d", text, err, merr, len(c.String()))
			case 19:
				// callbacks added to deeper places
				f := func(k json_map.JsonMapInt) { k.MustSet("$.late", id) }
				for _, k := range keysOf(*j.GetInsides()) {
					if x, ok := (*j.GetInsides())[k].(M); ok {
						x["later"] = f
						break
					}
				}
				say("deeper", "")
			}
		})
		if failed != nil {
			fmt.Fprintf(&b, "\n\t%s %s: panic %v", kind, p, failed)
		}
		kinds[kind]++
		if now := goStr(*j.GetInsides()); reading && now != before {
			*fails = append(*fails, fmt.Sprintf("%s of %s changed the scope from\n%s to\n%s", kind, p, before, now))
		}
	}
	b.WriteString("\n\t" + goStr(withoutFuncs(*j.GetInsides())))
	return b.String()
}

// spoil is JavaScript that changes everything within a value.
const spoil = `function spoil(x) {
	if (x === null || typeof x !== 'object') return;
	for (var k in x) { spoil(x[k]); x[k] = 'spoilt'; }
	if (x instanceof Array) { x.push('spoilt'); } else { x.spoilt = 1; }
}
`

func goStr(v interface{}) string {
	return strings.Replace(fmt.Sprintf("%#v", v), "interface {}", "any", -1)
}

func parseOr(s string) interface{} {
	if s == "" {
		return nil
	}
	return parseJSON([]byte(s))
}
