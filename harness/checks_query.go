package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// jm wraps a copy of a document.
func jm(doc M) *jom.JsonMap { return jom.NewFromMap(deepCopyV(doc).(M)) }

func valuesOf(nodes []*json_map.JsonPathNode) A {
	out := A{}
	for _, n := range nodes {
		out = append(out, n.Value)
	}
	return out
}

// outside says whether an error of the reference means that it does not know the answer.
func outside(err error) bool {
	var o errOutside
	return errors.As(err, &o)
}

// caught runs f and gives what it panicked with.
func caught(f func()) (p interface{}) {
	defer func() {
		p = recover()
		if _, ok := p.(bailout); ok {
			panic(p)
		}
	}()
	f()
	return nil
}

func shapeOf(v interface{}) string {
	switch x := v.(type) {
	case M:
		return fmt.Sprintf("m%d", len(x))
	case A:
		return fmt.Sprintf("a%d", len(x))
	case nil:
		return "null"
	}
	return fmt.Sprintf("%T", v)
}

func hasKind(p pathT, k stepKind) bool {
	for _, s := range p {
		if s.kind == k {
			return true
		}
	}
	return false
}

// store is the usual JSON path example document; it is used next to the generated documents.
func store() M {
	return parseJSON([]byte(`{"store":{"book":[{"category":"reference","author":"Nigel Rees","title":"Sayings of the Century","price":8.95},
 {"category":"fiction","author":"Evelyn Waugh","title":"Sword of Honour","price":12.99},
 {"category":"fiction","author":"Herman Melville","title":"Moby Dick","isbn":"0-553-21311-3","price":8.99},
 {"category":"fiction","author":"J. R. R. Tolkien","title":"The Lord of the Rings","isbn":"0-395-19395-8","price":22.99}],
 "bicycle":{"color":"red","price":19.95}},"expensive":10,"people":[{"name":"A","friends":[{"name":"B","age":3},{"name":"C","age":9}]},{"name":"D","friends":[]},{"name":"E","friends":[{"name":"F","age":4,"friends":[{"name":"G"}]}]}],
 "matrix":[[1,2,3],[4,5,6],[7,8,9]],"empty":{},"none":[],"nul":null}`)).(M)
}

// deep puts a value under n further levels of objects and arrays.
func (g gen) deep(v interface{}, n int) interface{} {
	for ; n > 0; n-- {
		switch g.Intn(4) {
		case 0:
			v = A{v}
		case 1:
			v = A{g.scalar(), v}
		case 2:
			v = M{g.key(): v}
		default:
			v = M{g.key(): g.scalar(), g.key(): v}
		}
	}
	return v
}

// bigDoc makes a document that is far deeper or wider than what people write by hand.
func (g gen) bigDoc() M {
	switch g.Intn(5) {
	case 0: // deep
		return M{"a": g.deep(g.value(2), 40+g.Intn(160)), "b": g.scalar()}
	case 1: // deep, and the same name on every level
		var v interface{} = M{"a": g.scalar()}
		for n := 20 + g.Intn(100); n > 0; n-- {
			switch g.Intn(3) {
			case 0:
				v = M{"a": v}
			case 1:
				v = M{"a": g.scalar(), "list": A{v}}
			default:
				v = M{"b": v, "a": float64(n)}
			}
		}
		return v.(M)
	case 2: // a long array of values
		l := A{}
		for n := 50 + g.Intn(400); n > 0; n-- {
			l = append(l, g.value(g.Intn(2)))
		}
		return M{"list": l, "a": g.deep(A{deepCopyV(l[:40])}, g.Intn(4))}
	case 3: // many records
		l := A{}
		for n := 50 + g.Intn(250); n > 0; n-- {
			l = append(l, M{"id": float64(len(l)), "a": g.scalar(), "b": M{"c": A{float64(n), g.scalar()}}})
		}
		return M{"list": l, "id": 3.0}
	default: // a wide object
		m := M{}
		for n := 50 + g.Intn(500); n > 0; n-- {
			m[fmt.Sprintf("k%d", g.Intn(100000))] = g.value(g.Intn(2))
		}
		return M{"a": m, "b": A{m["k1"], deepCopyV(m)}}
	}
}

func (g gen) anyDoc() M {
	if g.Intn(40) == 0 {
		return g.bigDoc()
	}
	switch g.Intn(12) {
	case 0:
		return store()
	case 1: // wide
		m := M{}
		n := 20 + g.Intn(60)
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("k%d", g.Intn(1000))] = g.value(2)
		}
		return m
	case 2: // deep chain
		var v interface{} = g.scalar()
		for i := 5 + g.Intn(25); i > 0; i-- {
			if g.Intn(3) == 0 {
				v = A{g.scalar(), v}
			} else {
				v = M{g.key(): v, g.key(): g.scalar()}
			}
		}
		return M{"a": v, "z": g.scalar()}
	case 3: // record array
		l := A{}
		for i := 3 + g.Intn(20); i > 0; i-- {
			l = append(l, M{"id": float64(len(l)), "name": strPool[g.Intn(len(strPool))], "list": g.arr(1), "a": g.scalar()})
		}
		return M{"list": l, "b": g.value(2), "id": 3.0}
	}
	return g.doc()
}

func init() {
	register(&Check{
		ID:     "C01",
		Rule:   "a case is one random document (random nesting, odd keys, unicode, wide/deep/record shapes) queried with 8 paths built by walking it; non-trivial: the reference evaluation selects at least one value (or gives a defined error), keyed by path kinds and the shapes of the result",
		Assume: []string{"the reference evaluation in harness/model.go states the intended meaning of the README's JSON path notes"},
		Run: func(r *Runner) {
			one := func(t *T, doc M, p pathT) {
				path := p.render()
				want, werr := refGet(deepCopyV(doc).(M), p)
				if outside(werr) {
					t.Inconclusive("filter outside the modelled fragment")
					return
				}
				t.Input("doc=%s path=%s", js(doc), path)
				got, gerr := jm(doc).JsonPathSelector(path)
				t.Count("queries", 1)
				if (werr != nil) != (gerr != nil) {
					t.Fail("error-mismatch", "reference error: %v, got error: %v, got values %s, want %s", werr, gerr, js(valuesOf(got)), js(want))
				}
				if werr != nil {
					t.Count("errors", 1)
					t.Nontrivial("err " + p.kinds())
					return
				}
				gv := valuesOf(got)
				if !same(gv, want) {
					t.Fail("values-mismatch", "got %s\nwant %s", js(gv), js(want))
				}
				t.Count("values", len(want))
				if len(want) > 0 {
					var sh []string
					for i, v := range want {
						if i < 4 {
							sh = append(sh, shapeOf(v))
						}
					}
					t.Nontrivial(fmt.Sprintf("%s -> %d %s", p.kinds(), len(want), strings.Join(sh, ",")))
				}
				// MustGet gives the same values
				var must []interface{}
				if pn := caught(func() { must = jm(doc).MustGet(path) }); pn != nil {
					t.Fail("mustget-panics", "MustGet panicked with %v where JsonPathSelector did not", pn)
				}
				if len(want) == 0 && must != nil || len(want) > 0 && !same(A(must), want) {
					t.Fail("mustget-mismatch", "MustGet gave %s, want %s", js(must), js(want))
				}
			}
			r.Group("random", r.N(9000, 250000), func(t *T) {
				g := gen{t.R, t.R.Intn(3) == 0}
				doc := g.anyDoc()
				for k := 0; k < 8; k++ {
					one(t, doc, g.path(doc, 1+g.Intn(6)))
				}
			})
			// every pair of step kinds on the same document
			r.Group("pairs", 400, func(t *T) {
				g := gen{t.R, false}
				doc := store()
				if t.Idx%2 == 0 {
					doc = g.anyDoc()
				}
				var vals []interface{} = []interface{}{doc}
				var p pathT
				for d := 0; d < 3; d++ {
					s := g.randomStep(vals[0], doc, d)
					if len(p) > 0 && p[len(p)-1].kind == sFirst && (s.kind == sFirst || s.kind == sRec) {
						continue
					}
					p = append(p, s)
					one(t, doc, append(pathT{}, p...))
					v, err := evalRaw(vals[0], s, doc)
					if err != nil || len(v) == 0 {
						break
					}
					vals = v
				}
			})
			// an array at the root
			r.Group("array-root", r.N(400, 8000), func(t *T) {
				g := gen{t.R, true}
				arr := g.arr(3)
				src := js(arr)
				m := jom.New()
				if err := m.Unmarshal([]byte(src)); err != nil {
					t.Fail("unmarshal", "%s: %v", src, err)
				}
				doc := M{"array": parseJSON([]byte(src))}
				for k := 0; k < 3; k++ {
					p := append(pathT{{kind: sProp, name: "array"}}, g.path(M{"array": doc["array"]}, 3)...)
					if len(p) > 1 && p[1].kind == sProp && p[1].name == "array" {
						p = p[1:]
					}
					want, werr := refGet(doc, p)
					if outside(werr) {
						continue
					}
					t.Input("doc=%s path=%s", src, p.render())
					got, gerr := m.JsonPathSelector(p.render())
					if (werr != nil) != (gerr != nil) || werr == nil && !same(valuesOf(got), want) {
						t.Fail("array-root-mismatch", "got %s (%v), want %s (%v)", js(valuesOf(got)), gerr, js(want), werr)
					}
					if werr == nil && len(want) > 0 {
						t.Nontrivial("array-root " + p.kinds())
					}
				}
			})
		},
	})

	register(&Check{
		ID:   "C02",
		Rule: "a case is a random document and 8 paths; every node's address is resolved again on its own, and (for addresses of plain keys) followed key by key by the monitor; non-trivial: a query that gave nodes, keyed by path kinds and number of nodes",
		Run: func(r *Runner) {
			r.Group("random", r.N(8000, 150000), func(t *T) {
				g := gen{t.R, t.R.Intn(3) == 0}
				doc := g.anyDoc()
				m := jm(doc)
				for k := 0; k < 8; k++ {
					p := g.path(doc, 1+g.Intn(5))
					path := p.render()
					t.Input("doc=%s path=%s", js(doc), path)
					nodes, err := m.JsonPathSelector(path)
					if err != nil || len(nodes) == 0 {
						continue
					}
					seen := map[string]bool{}
					for i, n := range nodes {
						addr := fmt.Sprint(n.Absolute)
						if seen[addr] && !hasKind(p, sIndices) {
							t.Fail("duplicate-address", "node %d has the same address as an earlier node: %s", i, addr)
						}
						seen[addr] = true
						back, errs := m.GetAbsolutePaths(&json_map.AbsolutePaths{n.Absolute})
						if errs != nil {
							t.Fail("address-unresolvable", "node %d: address %s (value %s) cannot be followed: %v", i, addr, js(n.Value), errs)
						}
						want := A{n.Value}
						if l, ok := n.Value.(A); ok {
							want = l
						}
						if !same(valuesOf(back), append(A{}, want...)) {
							t.Fail("address-wrong", "node %d: address %s gives %s, want %s", i, addr, js(valuesOf(back)), js(want))
						}
						// follow plain addresses independently
						if v, ok := follow(doc, n.Absolute); ok {
							t.Count("addresses-followed", 1)
							if !same(v, n.Value) {
								t.Fail("address-followed-wrong", "node %d: following %s gives %s, the node says %s", i, addr, js(v), js(n.Value))
							}
						} else if onlyIndexedProps(doc, p) {
							t.Fail("address-not-plain", "node %d of a path of plain keys has the address %s", i, addr)
						}
						t.Count("nodes", 1)
					}
					t.Nontrivial(fmt.Sprintf("%s %d", p.kinds(), len(nodes)))
				}
			})
		},
	})

	register(&Check{
		ID:   "C03",
		Rule: "a case is a random document and 5 paths (wildcards, filters, recursive lookups on wide objects favoured), each evaluated 12 times on the same map and on fresh copies whose Go maps were filled in another order; non-trivial: at least two values",
		Run: func(r *Runner) {
			r.Group("random", r.N(2500, 50000), func(t *T) {
				g := gen{t.R, t.R.Intn(3) == 0}
				doc := g.anyDoc()
				before := js(doc)
				m := jm(doc)
				for k := 0; k < 5; k++ {
					p := g.path(doc, 1+g.Intn(4))
					if g.Intn(3) == 0 {
						p = append(pathT{{kind: sRec, name: g.someKey(doc)}}, p...)
						if g.Intn(2) == 0 {
							p = p[:1]
						}
					}
					path := p.render()
					t.Input("doc=%s path=%s", before, path)
					var first string
					var firstErr bool
					n := 12
					if hasKind(p, sFilter) {
						n = 4
					}
					for i := 0; i < n; i++ {
						mm := m
						if i%3 == 2 {
							mm = jom.NewFromMap(shuffledCopy(g, doc).(M))
						}
						nodes, err := mm.JsonPathSelector(path)
						s := ""
						for _, nd := range nodes {
							s += fmt.Sprintf("%v=%s;", nd.Absolute, js(nd.Value))
						}
						if i == 0 {
							first, firstErr = s, err != nil
							if want, werr := refGet(doc, p); werr == nil && err == nil && len(want) == len(nodes) {
								// the values themselves are the matter of C01
								if got := valuesOf(nodes); !same(got, want) && sameBag(got, want) {
									t.Fail("order", "the order is %s, want %s", js(got), js(want))
								}
							}
							if len(nodes) > 1 {
								t.Nontrivial(fmt.Sprintf("%s %d %s", p.kinds(), len(nodes), clip(s, 60)))
							}
						} else if s != first || (err != nil) != firstErr {
							t.Fail("not-repeatable", "evaluation 0 gave %s (error: %v), evaluation %d gave %s (error: %v)", first, firstErr, i, s, err)
						}
						t.Count("evaluations", 1)
						// the addresses are the caller's, whatever is done to them is no matter of any other query
						for _, nd := range nodes {
							scribble(nd.Absolute)
						}
					}
					if now := js(*m.GetInsides()); now != before {
						t.Fail("query-modified-document", "the document was %s, after the query it is %s", before, now)
					}
					if !same(*m.GetInsides(), doc) {
						t.Fail("query-modified-document", "the document's Go values changed")
					}
				}
			})
		},
	})

	register(&Check{
		ID:     "C13",
		Rule:   "a case is a record array or object and 6 filter expressions from a JavaScript fragment with its own evaluator (nested JSON paths, string literals holding @, $, quotes and brackets, logic, arithmetic, typeof, Math), used to get, set and delete; non-trivial: the filter separates the elements, or throws, keyed by the expression's source",
		Assume: []string{"the fragment's evaluator (harness/filter.go) follows ECMAScript 5 for the operations it models; anything else counts as inconclusive"},
		Run: func(r *Runner) {
			r.Group("random", r.N(5000, 80000), func(t *T) {
				g := gen{t.R, false}
				var cont interface{}
				switch g.Intn(5) {
				case 0:
					cont = g.obj(2)
				case 1:
					cont = g.arr(2)
				case 2:
					l := A{}
					for i := 0; i < 1+g.Intn(6); i++ {
						l = append(l, g.scalar())
					}
					cont = l
				default:
					l := A{}
					for i := 0; i < 1+g.Intn(6); i++ {
						m := M{"a": g.scalar(), "b": g.scalar(), "name": fstr[g.Intn(len(fstr))]}
						if g.Intn(3) == 0 {
							m["list"] = g.arr(1)
						}
						l = append(l, m)
					}
					cont = l
				}
				doc := M{"x": cont, "name": fstr[g.Intn(len(fstr))], "id": float64(g.Intn(6)), "b": M{"c": g.scalar()}}
				for k := 0; k < 6; k++ {
					f := g.fexprFor(cont, doc)
					p := pathT{{kind: sProp, name: "x"}, {kind: sFilter, filter: f}}
					if g.Intn(4) == 0 {
						p = append(p, step{kind: sProp, name: "a"})
						if g.Intn(3) == 0 {
							p = append(p, step{kind: sFilter, filter: g.fexprFor(A{}, doc)})
						}
					}
					path := p.render()
					want, werr := refGet(doc, p)
					if outside(werr) {
						t.Inconclusive("filter outside the modelled fragment")
						continue
					}
					t.Input("doc=%s path=%s", js(doc), path)
					got, gerr := jm(doc).JsonPathSelector(path)
					if (werr != nil) != (gerr != nil) {
						t.Fail("filter-error-mismatch", "want error %v, got error %v, values %s", werr, gerr, js(valuesOf(got)))
					}
					if werr == nil && !same(valuesOf(got), want) {
						t.Fail("filter-values", "got %s\nwant %s", js(valuesOf(got)), js(want))
					}
					t.Count("filters", 1)
					n := 0
					switch c := cont.(type) {
					case A:
						n = len(c)
					case M:
						n = len(c)
					}
					if werr != nil || len(want) > 0 && len(want) < n {
						t.Nontrivial(path)
					}
					// the same filter for setting and deleting
					var value interface{}
					if g.Intn(2) == 0 {
						value = "set"
					}
					wdoc := deepCopyV(doc).(M)
					serr := refSet(wdoc, p, value)
					if outside(serr) {
						continue
					}
					m := jm(doc)
					gserr := m.JsonPathSetter(path, value)
					if (serr != nil) != (gserr != nil) {
						t.Fail("filter-set-error-mismatch", "setting %v: want error %v, got error %v, document %s", value, serr, gserr, js(*m.GetInsides()))
					}
					if serr == nil && !same(*m.GetInsides(), wdoc) {
						t.Fail("filter-set", "setting %v: got %s\nwant %s", value, js(*m.GetInsides()), js(wdoc))
					}
				}
			})
			// paths within filters that lead to a lot
			r.Group("large-paths", r.N(120, 2500), func(t *T) {
				g := gen{t.R, false}
				n := []int{2, 100, 500, 1000, 2000, 5000}[g.Intn(6)]
				big := A{}
				for i := 0; i < n; i++ {
					big = append(big, float64(i*3))
				}
				pick := float64(g.Intn(3*n + 3))
				text := strings.Repeat([]string{"x", "é@", "$.a ", "\u2028"}[g.Intn(4)], n)
				doc := M{"big": big, "text": text, "o": M{"v": M{"big": big, "n": float64(n)}}, "x": A{M{"i": pick, "s": text}, M{"i": pick + 1, "s": text + "."}, M{"i": pick + 2, "s": ""}}}
				in := func(v float64) bool { return v < float64(3*n) && math.Mod(v, 3) == 0 }
				f := []string{"$.big[*] .indexOf(@.i) >= 0", "$.text == @.s", "$.o.v.big .indexOf(@.i) >= 0 && $.o.v.n == " + fmt.Sprint(n), "$.o.v .big.indexOf(@.i) >= 0"}
				kind := g.Intn(4)
				path := "$.x[?(" + f[kind] + ")].i"
				t.Input("n=%d pick=%v path=%s", n, pick, path)
				want := A{}
				for _, e := range doc["x"].(A) {
					if kind == 1 && e.(M)["s"] == text || kind != 1 && in(e.(M)["i"].(float64)) {
						want = append(want, e.(M)["i"])
					}
				}
				got, err := jm(doc).JsonPathSelector(path)
				if err != nil || !same(A(valuesOf(got)), want) {
					t.Fail("large-paths", "got %s, %v\nwant %s", js(valuesOf(got)), err, js(want))
				}
				t.Count("filters", 1)
				t.Nontrivial(fmt.Sprint(n, path, len(want)))
			})
			lits := []struct {
				doc, path, want string
			}{
				{`{"x":["@","a@b","$.y"],"y":1}`, `$.x[?(@ == "@")]`, `["@"]`},
				{`{"x":["@","a@b","$.y"],"y":1}`, `$.x[?(@ == '$.y')]`, `["$.y"]`},
				{`{"x":[{"n":"a)]b"},{"n":"c"}]}`, `$.x[?(@.n == 'a)]b')].n`, `["a)]b"]`},
				{`{"x":[{"n":[1,2]},{"n":[3]}]}`, `$.x[?(@.n[(1-1)] == 3)].n`, `[[3]]`},
				{`{"x":[1,2,3],"lim":2}`, `$.x[?(@ >= $.lim )]`, `[2,3]`},
				{`{"x":[1,2,3],"lims":[1,3]}`, `$.x[?( $.lims[*] .indexOf(@) >= 0)]`, `[1,3]`},
				{`{"x":[1,2,3]}`, `$.x[?([1,3].indexOf(@) >= 0)]`, `[1,3]`},
				{`{"x":[{"a":1},{"b":1}]}`, `$.x[?(@.a)]`, `[{"a":1}]`},
				{`{"x":[[1],[],[2,3]]}`, `$.x[?(@.length > 0)]`, `[[1],[2,3]]`},
				{`{"x":["naïve ☃","z"],"y":"naïve ☃"}`, `$.x[?('☃☃' && @ == $.y )]`, `["naïve ☃"]`},
				{`{"x":[{"name":"it's"},{"name":"q"}]}`, `$.x[?(@.name == "it's")].name`, `["it's"]`},
				{`{"x":["a\"b","c"]}`, `$.x[?(@ == 'a"b')]`, `["a\"b"]`},
				{`{"x":[1,2,3,4]}`, `$.x[?(@ % 2 == 0)]`, `[2,4]`},
				{`{"x":[1,2,3,4]}`, `$.x[?((function(v){ return v > 2 })(@))]`, `[3,4]`},
				{`{"x":["apple","bob"]}`, `$.x[?(/^a/.test(@))]`, `["apple"]`},
				{`{"x":{"k2":2,"k1":1,"k3":3}}`, `$.x[?(@ > 1)]`, `[2,3]`},
			}
			bad := []string{"@ >", "@;", "@.a; true", ";", "@ +* 1", "var y = 1", "throw 1", "return @", "nope", "@.x.y.z", "undefinedFn(@)", "JSON.parse('{')", "(function() { throw 1; })()", "null.x", "new Array(-1)", "decodeURIComponent('%')", "@.name.missing()", "@ @", "if (@) true", "@ instanceof 5", "'a' in @.b", "$.nope ", "$.x[9] ", "true)) || ((true"}
			List(r, "refused", bad, func(t *T, e string) {
				for _, x := range []string{`[1,2]`, `{"k":1}`} {
					doc := parseJSON([]byte(`{"x":` + x + `}`)).(M)
					for _, path := range []string{"$.x[?(" + e + ")]", "$.x[?(" + e + ")].a", "$[?(@)][?(" + e + ")]"} {
						t.Input("doc=%s path=%s", js(doc), path)
						m := jm(doc)
						if got, err := m.JsonPathSelector(path); err == nil || len(got) > 0 {
							t.Fail("filter-accepted", "got %s (%v), want an error", js(valuesOf(got)), err)
						}
						for _, v := range []interface{}{"v", nil} {
							if strings.HasPrefix(path, "$[") {
								continue // what a set follows of it is left open
							}
							if err := m.JsonPathSetter(path, v); err == nil {
								t.Fail("filter-accepted-set", "setting %v: no error, document %s", v, js(*m.GetInsides()))
							}
						}
						if !same(*m.GetInsides(), doc) {
							t.Fail("filter-refused-changed", "the document is %s", js(*m.GetInsides()))
						}
						t.Count("refused", 1)
					}
				}
				t.Nontrivial(e)
			})
			// what one filter leaves behind is not there for any other
			r.Group("leftovers", r.N(400, 8000), func(t *T) {
				g := gen{t.R, false}
				dirty := []string{"leak = 1", "Object.prototype.polluted = true", "(__currentNode__ = 5) > 1", "(String.prototype.indexOf = null) || true", "(JSON = null) || 1", "(x = @) || true", "(Math.max = null) || 1", "[leak = @].length", "function() { leak = 2; return true; }()", "delete Array.prototype.push", "(Array.prototype.filter = 5) && leak.nope", "(undefined = 1) || (NaN = 1)", "eval('var leak = 3; true')", "(Boolean = null) || true", "this.leak = [@]", "Object.defineProperty(Object.prototype, 'polluted', {value: 1}) && true"}[g.Intn(16)]
				probe := "typeof leak === 'undefined' && typeof x === 'undefined' && ({}).polluted === undefined && 'ab'.indexOf('b') === 1 && JSON.stringify([1]) === '[1]' && Math.max(1, 2) === 2 && [].push.call([], 1) === 1 && [1].filter(function() { return true; }).length === 1 && Boolean(1) && " + []string{"true", "@ === @", "@.v > 0", "$.n == 2"}[g.Intn(4)]
				first, second := jom.NewFromMap(M{"l": A{1.0, M{"v": 1.0}, "s"}}), jom.NewFromMap(M{"l": A{M{"v": 1.0}, M{"v": 2.0}}, "n": 2.0})
				if g.Intn(3) == 0 {
					first = second
				}
				t.Input("%s\nthen %s", dirty, probe)
				how := g.Intn(4)
				switch how {
				case 0:
					first.JsonPathSelector("$.l[?(" + dirty + ")]")
				case 1:
					first.Clone(false).JsonPathSetter("$.l[?("+dirty+")]", 1.0)
				case 2:
					first.JsonPathSelector("$.l[?(" + dirty + ")][?(" + dirty + ")]")
				case 3:
					// another one of the same path
					got, err := second.JsonPathSelector("$.l[?((" + dirty + ") || true)][?(" + probe + ")]")
					if err == nil && len(got) != 2 {
						t.Fail("leftovers-in-path", "got %s", js(valuesOf(got)))
					}
				}
				got, err := second.JsonPathSelector("$.l[?(" + probe + ")]")
				if err != nil || !same(valuesOf(got), A{M{"v": 1.0}, M{"v": 2.0}}) {
					t.Fail("leftovers", "got %s (%v)", js(valuesOf(got)), err)
				}
				t.Nontrivial(fmt.Sprint("leftovers ", dirty, how, clip(probe[len(probe)-8:], 8)))
			})
			// an error for one of the elements is an error of the query, whichever element and error it is
			r.Group("throws", r.N(1500, 30000), func(t *T) {
				g := gen{t.R, false}
				n := 1 + g.Intn(6)
				if g.Intn(10) == 0 {
					n = 20 + g.Intn(60)
				}
				bad := map[int]bool{}
				for k := g.Intn(3); k > 0; k-- {
					bad[[]int{0, n - 1, n / 2, g.Intn(n)}[g.Intn(4)]] = true
				}
				var truth A
				list, obj := A{}, M{}
				for i := 0; i < n; i++ {
					e := M{"bad": bad[i], "v": float64(g.Intn(4)), "i": float64(i)}
					list = append(list, e)
					obj[fmt.Sprintf("k%03d", i)] = e
					if e["v"].(float64) > 1 {
						truth = append(truth, e)
					}
				}
				bang := []string{"nope", "null.x", "undefined()", "decodeURIComponent('%')", "new Array(-1)", "eval('throw 1')", "JSON.parse('{')", "new RegExp('(')", "(1).toFixed(200)", "(function(){ throw 1; })()", "(function(){ throw undefined; })()", "(function(){ throw null; })()", "(function(){ throw ''; })()", "(function(){ throw {}; })()", "(function(){ throw new Error(''); })()", "(function(){ throw new EvalError('x'); })()", "(function(){ throw [@.i]; })()", "@.v.x.y", "@.missing.x", "@.v()", "(1 in @.v)", "(@ instanceof 1)", "eval('}')", "Object.defineProperty(1, 'a', {})", "''.repeat()"}[g.Intn(25)]
				cond := []string{"@.bad ? " + bang + " : @.v > 1", "!@.bad && @.v > 1 || @.bad && " + bang, "[@.v > 1, @.bad && " + bang + "][0]", "(function(x) { if (x.bad) { " + bang + "; } return x.v > 1; })(@)"}[g.Intn(4)]
				var doc M
				if g.Intn(2) == 0 {
					doc = M{"x": list}
				} else {
					doc = M{"x": obj}
				}
				path := "$.x[?(" + cond + ")]"
				if g.Intn(4) == 0 {
					doc, path = M{"w": doc}, "$.w.x[?("+cond+")]"
				}
				t.Input("doc=%s path=%s", js(doc), path)
				m := jm(doc)
				tail := g.Intn(4)
				var got []*json_map.JsonPathNode
				var err error
				want := truth
				if tail == 0 {
					got, err = m.JsonPathSelector(path + ".i")
					want = A{}
					for _, e := range truth {
						want = append(want, e.(M)["i"])
					}
				} else {
					got, err = m.JsonPathSelector(path)
				}
				if len(bad) > 0 {
					if err == nil || len(got) > 0 {
						t.Fail("throws-accepted", "got %s (%v), want an error", js(valuesOf(got)), err)
					}
				} else if err != nil && !(tail == 0 && len(truth) == 0) || len(got) != len(want) || len(want) > 0 && !same(valuesOf(got), want) {
					t.Fail("throws-values", "got %s (%v), want %s", js(valuesOf(got)), err, js(want))
				}
				if p := caught(func() { m.MustGet(path) }); (p != nil) != (len(bad) > 0) {
					t.Fail("throws-panic", "MustGet panicked with %v", p)
				}
				if !same(*m.GetInsides(), doc) {
					t.Fail("throws-changed", "the document is %s", js(*m.GetInsides()))
				}
				for _, v := range []interface{}{"set", nil} {
					m := jm(doc)
					if err := m.JsonPathSetter(path, v); (err != nil) != (len(bad) > 0) {
						t.Fail("throws-set", "setting %v: error %v, document %s", v, err, js(*m.GetInsides()))
					}
				}
				t.Count("throwing", len(bad))
				t.Nontrivial(fmt.Sprint("throws ", len(bad), n, bang, tail))
			})
			// a path within an expression stands for what it selects: the value, or a list if these are none or several
			r.Group("operands", r.N(1500, 30000), func(t *T) {
				g := gen{t.R, false}
				nums := A{}
				for k := g.Intn(5); k > 0; k-- {
					nums = append(nums, float64(g.Intn(5)))
				}
				recs := A{}
				for k := g.Intn(4); k > 0; k-- {
					recs = append(recs, []interface{}{M{"v": float64(g.Intn(3))}, M{"v": g.scalar(), "w": A{}}, M{"v": M{}}}[g.Intn(3)])
				}
				doc := M{"x": A{1.0, 2.0, 3.0}, "n": nums, "r": recs, "o": M{"b": g.scalar(), "a": A{}}, "e": A{}, "eo": M{}}
				c := g.Intn(5)
				operand := []string{"$.n[*]", fmt.Sprintf("$.n[?(@>%d)]", c), fmt.Sprintf("$.n[?(@==%d)]", c), "$.n[0:2]", "$.n[-1:]", "$.n[5:]", "$.e[*]", "$.e", "$.eo", "$.eo[*]", "$.r[*].v", fmt.Sprintf("$.r[?(@.v==%d)]", c), fmt.Sprintf("$.r[?(@.v==%d)].v", c), "$.o[*]", "$.o.b", "$.o[a,b]", "$..v", "$..w", "$.n", "$.r", "$[e,eo]", "$.e[?(@)]", "$.eo[?(@)]", "$.n[first]", "$.n[last]", "$.n[1,0]", "$.x[1]"}[g.Intn(27)]
				ref := jm(doc)
				sel, serr := ref.JsonPathSelector(operand)
				vals := valuesOf(sel)
				var value interface{} = vals
				if len(vals) == 1 {
					value = vals[0]
				} else if len(vals) == 0 {
					value = A{}
				}
				lit := js(value)
				f := []string{
					"JSON.stringify( " + operand + " ) === " + jsLit(lit, '\''),
					"(function(v) { return JSON.stringify(v) === " + jsLit(lit, '"') + "; })( " + operand + " ) && @ > 1",
					"[ " + operand + " , @].length === 2 && Array.isArray( " + operand + " ) === " + fmt.Sprint(isArr(value)),
					"typeof " + operand + " === " + jsLit(jsType(value), '"'),
				}[g.Intn(4)]
				path := "$.x[?(" + f + ")]"
				t.Input("doc=%s path=%s", js(doc), path)
				got, err := jm(doc).JsonPathSelector(path)
				want := A{1.0, 2.0, 3.0}
				if strings.Contains(f, "@ > 1") {
					want = want[1:]
				}
				if serr != nil {
					if err == nil || len(got) > 0 {
						t.Fail("operand-refused", "the operand's own error is %v; the filter gives %s, %v", serr, js(valuesOf(got)), err)
					}
				} else if err != nil || !same(valuesOf(got), want) {
					t.Fail("operand", "the operand's values are %s; got %s, %v, want %s", js(vals), js(valuesOf(got)), err, js(want))
				}
				t.Nontrivial(fmt.Sprint("operand ", operand, len(vals), serr != nil, clip(f, 6)))
			})
			List(r, "literal", lits, func(t *T, e struct{ doc, path, want string }) {
				t.Input("doc=%s path=%s", e.doc, e.path)
				got, err := jm(parseJSON([]byte(e.doc)).(M)).JsonPathSelector(e.path)
				if err != nil || !same(valuesOf(got), parseJSON([]byte(e.want)).(A)) {
					t.Fail("filter-literal", "got %s (%v), want %s", js(valuesOf(got)), err, e.want)
				}
				t.Nontrivial(e.path)
			})
		},
	})

	register(&Check{
		ID:   "C07",
		Rule: "a case is a random path tree rendered to text and parsed back; long names, many steps, several filters, spaces, leading zeros and repeated dots included; non-trivial: keyed by the kinds of the steps",
		Run: func(r *Runner) {
			r.Group("random", r.N(30000, 600000), func(t *T) {
				g := gen{t.R, false}
				var p pathT
				n := 1 + g.Intn(7)
				if g.Intn(40) == 0 {
					n = 50 + g.Intn(200)
				}
				if r.Thorough() && g.Intn(4000) == 0 || t.Idx < 6 {
					n = 1000 + g.Intn(600)
				}
				long := t.Idx >= 6 && t.Idx < 30 && n < 50
				ind := 0
				for len(p) < n {
					s := g.freeStep()
					if len(p) > 0 && p[len(p)-1].kind == sFirst && (s.kind == sFirst || s.kind == sRec) {
						continue
					}
					if s.kind == sIndices {
						if ind++; ind > 3 {
							continue
						}
					}
					if n >= 1000 && s.kind == sFilter && len(p) > 30 {
						continue // these take too long to read
					}
					if long && s.kind == sProp {
						s.name = strings.Repeat(s.name, 1+g.Intn(90000)/len(s.name))
					}
					p = append(p, s)
				}
				path := p.render()
				if g.Intn(6) == 0 {
					path += strings.Repeat(" ", 1+g.Intn(3))
				}
				t.Input("path=%s", path)
				got, err := json_map.ParseJsonPath(path)
				if err != nil {
					t.Fail("parse-error", "well-formed path refused: %v", err)
				}
				want := expectKeys(p)
				if fmt.Sprint(keyStr(got)) != fmt.Sprint(keyStr(want)) {
					t.Fail("parse-wrong", "got %s\nwant %s", keyStr(got), keyStr(want))
				}
				// what is read belongs to the caller: altering it does not affect what is read next
				if len(path) < 5000 {
					for _, keys := range got {
						scribble(keys)
					}
					if again, err := json_map.ParseJsonPath(path); err != nil || keyStr(again) != keyStr(want) {
						t.Fail("parse-again", "once the result was altered the same path gives %s (%v)\nwant %s", keyStr(again), err, keyStr(want))
					}
				}
				t.Count("paths", 1)
				t.Count("steps", len(p))
				t.Nontrivial(p.kinds())
			})
		},
	})
}

// scribble alters steps.
func scribble(keys []json_map.AbsolutePathKey) {
	for i := range keys {
		if inner, ok := keys[i].Value.([]json_map.AbsolutePathKey); ok {
			scribble(inner)
		}
		keys[i] = json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "scribbled"}
	}
}

// follow follows an address of plain keys.
func follow(doc M, addr []json_map.AbsolutePathKey) (interface{}, bool) {
	var cur interface{} = doc
	for _, k := range addr {
		switch k.KeyType {
		case json_map.StringKey:
			m, ok := cur.(M)
			if !ok {
				return nil, false
			}
			cur = m[k.Value.(string)]
		case json_map.IndexKey:
			a, ok := cur.(A)
			if !ok || k.Value.(int) < 0 || k.Value.(int) >= len(a) {
				return nil, false
			}
			cur = a[k.Value.(int)]
		case json_map.First:
			m, ok := cur.(M)
			if !ok {
				return nil, false
			}
			f, ok := firstContainer(m)
			if !ok {
				return nil, false
			}
			cur = m[f]
		default:
			return nil, false
		}
	}
	return cur, true
}

// onlyIndexedProps says whether a path is one of properties of objects and indices of arrays only.
func onlyIndexedProps(doc M, p pathT) bool {
	var cur interface{} = doc
	for _, s := range p {
		m, isM := cur.(M)
		a, isA := cur.(A)
		switch {
		case s.kind == sProp && isM:
			cur = m[s.name]
		case s.kind == sIndex && isA && s.idx[0] < len(a):
			cur = a[s.idx[0]]
		default:
			return false
		}
	}
	return true
}

// shuffledCopy copies a value, inserting the keys of its maps in another order.
func shuffledCopy(g gen, v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		ks := keysOf(x)
		g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		m := M{}
		for _, k := range ks {
			m[k] = shuffledCopy(g, x[k])
		}
		return m
	case A:
		a := make(A, len(x))
		for i, e := range x {
			a[i] = shuffledCopy(g, e)
		}
		return a
	}
	return v
}

const nameFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
const nameRest = nameFirst + "0123456789-"

func (g gen) freeName() string {
	n := 1 + g.Intn(8)
	if g.Intn(200) == 0 {
		n = 4000 + g.Intn(9000)
	}
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = nameFirst[g.Intn(len(nameFirst))]
		} else {
			b[i] = nameRest[g.Intn(len(nameRest))]
		}
	}
	return string(b)
}

// rawFilter is a filter whose text is all that matters.
type rawFilter string

func (f rawFilter) src() string                                        { return string(f) }
func (f rawFilter) eval(node interface{}, root M) (interface{}, error) { return nil, errOutside{} }
func (f rawFilter) truth(node interface{}, root M) (bool, error)       { return false, errOutside{} }

var rawFilters = []string{"@", "@.a > 1", "@.a[0] == 'x'", "@ == ')]'", `@ == "[?("`, "(@.a)", "((@.b)[1])", "$.x[?(@.y)].z == 1", "@['a b']", "f({a: [1]})", "  @  ", "'it\\'s )] '", "@.a == 'x' && ($.b[0] )", "naïve", "@.length>2||!(@.k-1)", "[@][0]", "[[1]]", "/[a-z]/.test(@)"}

// filterText makes text with balanced brackets and string literals of all kinds.
func (g gen) filterText(depth int) string {
	var b strings.Builder
	for n := 1 + g.Intn(5); n > 0; n-- {
		switch g.Intn(8) {
		case 0, 1:
			q := []string{"'", "\""}[g.Intn(2)]
			b.WriteString(q)
			for k := g.Intn(5); k > 0; k-- {
				b.WriteString([]string{"a", ")]", "[?(", "\\\\", "\\" + q, "\\'", "\\\"", "(", "]", "}", "$.x", "@", " ", "é", map[string]string{"'": "\"", "\"": "'"}[q], ".", "\\n"}[g.Intn(17)])
			}
			b.WriteString(q)
		case 2:
			if depth > 0 {
				b.WriteString("(" + g.filterText(depth-1) + ")")
			}
		case 3:
			if depth > 0 {
				b.WriteString("[" + g.filterText(depth-1) + "]")
			}
		case 4:
			if depth > 0 {
				b.WriteString("{" + g.filterText(depth-1) + "}")
			}
		default:
			b.WriteString([]string{"@", ".a", " ", "==", "1", "$.b ", ">", "&&", ",", "!", "日", ":", "?", "*"}[g.Intn(14)])
		}
	}
	return b.String()
}

func (g gen) freeStep() step {
	s := step{dotted: g.Intn(6) == 0, sep: []string{"", " ", "   ", "\t"}[g.Intn(4)]}
	switch g.Intn(11) {
	case 0, 1, 2:
		s.kind, s.name = sProp, g.freeName()
	case 3:
		s.kind, s.idx = sIndex, []int{g.Intn(1000)}
		if g.Intn(10) == 0 {
			s.idx[0] = -g.Intn(5)
		}
	case 4:
		s.kind = sIndices
		for k := 2 + g.Intn(3); k > 0; k-- {
			s.idx = append(s.idx, g.Intn(100))
		}
	case 5:
		s.kind = sWildDot
	case 6:
		s.kind = sWildIdx
	case 7:
		s.kind = sSlice
		switch g.Intn(4) {
		case 0:
			s.from, s.to = ip(g.Intn(100)), ip(g.Intn(100))
		case 1:
			s.from = ip(g.Intn(100) - 50)
		default:
			s.to = ip(g.Intn(100) - 50)
		}
	case 8:
		s.kind, s.n = sFirst, 1+g.Intn(4)
	case 9:
		s.kind, s.name = sRec, g.freeName()
	case 10:
		s.kind, s.filter = sFilter, rawFilter(rawFilters[g.Intn(len(rawFilters))])
		if g.Intn(2) == 0 {
			s.filter = rawFilter(g.filterText(3))
		}
		s.fspaces = []string{"", " "}[g.Intn(2)]
	}
	return s
}

// expectKeys gives the keys that a path tree stands for.
func expectKeys(p pathT) json_map.AbsolutePaths {
	out := json_map.AbsolutePaths{}
	for _, q := range alternatives(p) {
		var ks []json_map.AbsolutePathKey
		for _, s := range q {
			switch s.kind {
			case sProp:
				ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: s.name})
			case sIndex:
				ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: s.idx[0]})
			case sWildDot, sWildIdx:
				ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.Wildcard})
			case sSlice:
				lim := func(i *int) json_map.AbsolutePathKey {
					if i == nil {
						return json_map.AbsolutePathKey{KeyType: json_map.StartEnd}
					}
					return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: *i}
				}
				ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.Slice, Value: []json_map.AbsolutePathKey{lim(s.from), lim(s.to)}})
			case sFirst:
				for i := 0; i < s.n; i++ {
					ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.First})
				}
			case sRec:
				ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.RecursiveLookup, Value: s.name})
			case sFilter:
				ks = append(ks, json_map.AbsolutePathKey{KeyType: json_map.Filter, Value: s.fspaces + s.filter.src() + s.fspaces})
			}
		}
		out = append(out, ks)
	}
	return out
}

func keyStr(ps json_map.AbsolutePaths) string {
	var b strings.Builder
	for _, p := range ps {
		for _, k := range p {
			fmt.Fprintf(&b, "<%d %T %v>", k.KeyType, k.Value, k.Value)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func sortedStrings(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

// sameBag says whether two lists have the same values, in whatever order.
func sameBag(a, b A) bool {
	n := map[string]int{}
	for _, v := range a {
		n[js(v)]++
	}
	for _, v := range b {
		n[js(v)]--
	}
	for _, c := range n {
		if c != 0 {
			return false
		}
	}
	return true
}

func isArr(v interface{}) bool {
	_, ok := v.(A)
	return ok
}

// jsType is what typeof gives for a value of a document.
func jsType(v interface{}) string {
	switch v.(type) {
	case string:
		return "string"
	case float64:
		return "number"
	case bool:
		return "boolean"
	}
	return "object"
}
