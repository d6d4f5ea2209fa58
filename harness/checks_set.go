package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// leafLocations lists the addresses, as concrete paths, of all values within a value.
func leafLocations(v interface{}, at string, out *[]string) {
	switch x := v.(type) {
	case M:
		for _, k := range keysOf(x) {
			*out = append(*out, at+"."+k)
			leafLocations(x[k], at+"."+k, out)
		}
	case A:
		for i := range x {
			*out = append(*out, fmt.Sprintf("%s[%d]", at, i))
			leafLocations(x[i], fmt.Sprintf("%s[%d]", at, i), out)
		}
	}
}

var hugeIndex = regexp.MustCompile(`\[[^\]]*\d{19,}`)

// singleOn says whether a path leads to at most one location of a document, so that if it fails nothing can have changed.
func singleOn(doc M, p pathT) bool {
	var cur interface{} = doc
	for _, s := range p {
		_, isA := cur.(A)
		switch {
		case s.kind == sProp && isA:
			return false
		case s.kind == sProp, s.kind == sIndex, s.kind == sFirst:
		default:
			return false
		}
		v, err := evalRaw(cur, s, doc)
		if err != nil || len(v) == 0 {
			return true
		}
		cur = v[0]
	}
	return true
}

// changed compares two documents and gives a short description of how many locations differ.
func nested(v interface{}) bool {
	switch v.(type) {
	case M, A:
		return true
	}
	return false
}

// deepest gives the object that is reached last by following containers down from an object.
func deepest(m M) M {
	var cur interface{} = m
	for {
		var next interface{}
		switch x := cur.(type) {
		case M:
			m = x
			for _, k := range keysOf(x) {
				if nested(x[k]) {
					next = x[k]
				}
			}
		case A:
			for _, e := range x {
				if nested(e) {
					next = e
				}
			}
		}
		if next == nil {
			return m
		}
		cur = next
	}
}

func diffCount(a, b interface{}) int {
	if same(a, b) {
		return 0
	}
	am, aok := a.(M)
	bm, bok := b.(M)
	if aok && bok {
		n := 0
		for k := range am {
			if _, ok := bm[k]; !ok {
				n++
			} else {
				n += diffCount(am[k], bm[k])
			}
		}
		for k := range bm {
			if _, ok := am[k]; !ok {
				n++
			}
		}
		return n
	}
	aa, aok := a.(A)
	ba, bok := b.(A)
	if aok && bok && len(aa) == len(ba) {
		n := 0
		for i := range aa {
			n += diffCount(aa[i], ba[i])
		}
		return n
	}
	return 1
}

func init() {
	register(&Check{
		ID:     "C04",
		Rule:   "a case is a history of 1 to 8 sets and deletes on one document, compared with the reference after every operation (whole document, so nothing else may change); non-trivial: an operation that changed the document, keyed by path kinds, value shape and number of locations changed",
		Assume: []string{"the reference evaluation in harness/model.go states the intended meaning of the README's JSON path notes"},
		Run: func(r *Runner) {
			history := func(t *T, g gen, doc M, ops int) {
				m := jm(doc)
				ref := deepCopyV(doc).(M)
				var log []string
				for k := 0; k < ops; k++ {
					p := g.path(ref, 1+g.Intn(5))
					path := p.render()
					var value interface{}
					if g.Intn(3) > 0 {
						value = g.value(g.Intn(3))
					}
					var must func()
					op := "set"
					if g.Intn(4) == 0 {
						op = "must"
					}
					before := deepCopyV(ref).(M)
					try := deepCopyV(ref).(M)
					werr := refSet(try, p, value)
					if outside(werr) {
						t.Inconclusive("filter outside the modelled fragment")
						continue
					}
					log = append(log, fmt.Sprintf("%s %s = %s", op, path, js(value)))
					t.Input("doc=%s\nhistory:\n%s", js(doc), strings.Join(log, "\n"))
					var gerr error
					given := deepCopyV(value)
					if op == "must" {
						if value == nil {
							must = func() { m.MustDelete(path) }
						} else {
							must = func() { m.MustSet(path, value) }
						}
						if p := caught(must); p != nil {
							e, ok := p.(error)
							if !ok {
								t.Fail("must-panics-without-error", "panicked with %v", p)
							}
							gerr = e
						}
					} else {
						gerr = m.JsonPathSetter(path, value)
					}
					if !same(given, value) {
						t.Fail("value-modified", "the value given was %s and is now %s", js(given), js(value))
					}
					if (werr != nil) != (gerr != nil) {
						t.Fail("error-mismatch", "reference error: %v, got error: %v, document now %s", werr, gerr, js(*m.GetInsides()))
					}
					now := *m.GetInsides()
					if werr != nil {
						t.Count("errors", 1)
						if singleOn(before, p) && !same(now, before) {
							t.Fail("failed-set-changed-document", "the set failed (%v) but changed the document\nfrom %s\nto   %s", gerr, js(before), js(now))
						}
						// what a failed set of several locations leaves is not specified: start again from the known state
						m = jm(before)
						ref = before
						continue
					}
					if !same(now, try) {
						t.Fail("set-mismatch", "got  %s\nwant %s\nfrom %s", js(now), js(try), js(before))
					}
					n := diffCount(before, try)
					t.Count("operations", 1)
					t.Count("locations-changed", n)
					if n > 0 {
						t.Nontrivial(fmt.Sprintf("%s %s %d", p.kinds(), shapeOf(value), n))
					}
					ref = try
				}
			}
			r.Group("history", r.N(12000, 250000), func(t *T) {
				g := gen{t.R, t.R.Intn(3) == 0}
				history(t, g, g.anyDoc(), 1+g.Intn(8))
			})
			// a set followed by a get of the same path gives the value, where the path is of plain keys
			r.Group("set-get", r.N(4000, 60000), func(t *T) {
				g := gen{t.R, false}
				doc := g.anyDoc()
				var locs []string
				leafLocations(doc, "$", &locs)
				var plain []string
				for _, l := range locs {
					if _, err := json_map.ParseJsonPath(l); err == nil && !strings.ContainsAny(l, " '\"$@") || strings.Count(l, "$") == 1 && regexp.MustCompile(`^\$(\.[a-zA-Z_][a-zA-Z0-9_-]*|\[\d+\])+$`).MatchString(l) {
						plain = append(plain, l)
					}
				}
				var keep []string
				for _, l := range plain {
					if regexp.MustCompile(`^\$(\.[a-zA-Z_][a-zA-Z0-9_-]*|\[\d+\])+$`).MatchString(l) {
						keep = append(keep, l)
					}
				}
				if len(keep) == 0 {
					return
				}
				loc := keep[g.Intn(len(keep))]
				v := g.value(2)
				if v == nil {
					v = "x"
				}
				t.Input("doc=%s set %s = %s", js(doc), loc, js(v))
				m := jm(doc)
				if err := m.JsonPathSetter(loc, v); err != nil {
					t.Fail("set-get-error", "%v", err)
				}
				nodes, err := m.JsonPathSelector(loc)
				want := A{v}
				if l, ok := v.(A); ok {
					want = append(A{}, l...)
				}
				if err != nil || !same(valuesOf(nodes), want) {
					t.Fail("set-get", "after setting %s to %s a get gives %s (%v)", loc, js(v), js(valuesOf(nodes)), err)
				}
				t.Nontrivial(fmt.Sprintf("%d %s", strings.Count(loc, ".")+strings.Count(loc, "["), shapeOf(v)))
				// and a delete makes an object's property unreachable again
				if !strings.HasSuffix(loc, "]") {
					if err := m.JsonPathSetter(loc, nil); err != nil {
						t.Fail("delete-error", "%v", err)
					}
					parent, name := loc[:strings.LastIndex(loc, ".")], loc[strings.LastIndex(loc, ".")+1:]
					if parent == "$" {
						if _, ok := (*m.GetInsides())[name]; ok {
							t.Fail("delete-left", "%s is still there", loc)
						}
					} else if nodes, err := m.JsonPathSelector(parent); err == nil && len(nodes) == 1 {
						if mm, ok := nodes[0].Value.(M); ok {
							if _, ok := mm[name]; ok {
								t.Fail("delete-left", "%s is still there", loc)
							}
						}
					}
				}
			})
		},
	})

	register(&Check{
		ID:   "C05",
		Rule: "a case sets one container value at several locations, then changes one location (by a path, or the value the caller kept) and compares the whole document with a reference that copies; non-trivial: at least two locations held the value, keyed by path kinds",
		Run: func(r *Runner) {
			r.Group("random", r.N(14000, 250000), func(t *T) {
				g := gen{t.R, false}
				doc := g.anyDoc()
				if g.Intn(2) == 0 {
					doc = M{"list": A{M{"a": 1.0, "b": 2.0}, M{"a": 3.0}, M{"a": A{}, "list": A{M{"a": 1.0}}}}, "d": M{"a": M{"a": 1.0}, "b": A{1.0, 2.0}, "c": 5.0}}
				}
				var p pathT
				for try := 0; try < 10; try++ {
					p = g.path(doc, 3)
					if !p.single() {
						break
					}
				}
				value := []interface{}{M{"v": M{"w": A{1.0, M{"q": 1.0}}}}, A{A{1.0}, M{"v": 1.0}}, M{"v": A{}}, A{M{"w": A{}}, 2.0}}[g.Intn(4)]
				if g.Intn(12) == 0 {
					// something far down within the value is changed later
					value = M{"v": g.deep(M{"w": 1.0}, 10+g.Intn(60))}
				}
				ref := deepCopyV(doc).(M)
				if err := refSet(ref, p, value); err != nil {
					return
				}
				m := jm(doc)
				path := p.render()
				t.Input("doc=%s\nset %s = %s", js(doc), path, js(value))
				orig := deepCopyV(value)
				if err := m.JsonPathSetter(path, value); err != nil {
					return // judged by C04
				}
				// 1. the caller goes on using their value
				switch x := value.(type) {
				case M:
					x["extra"] = true
					if v, ok := x["v"].(M); ok {
						v["w"] = "gone"
					}
					deepest(x)["w"] = "gone"
				case A:
					x[0] = "gone"
					if v, ok := x[len(x)-1].(M); ok {
						v["v"] = "gone"
					}
				}
				if now := *m.GetInsides(); !same(now, ref) {
					t.Fail("aliases-callers-value", "a change of the caller's value after the set changed the document\nto   %s\nwant %s", js(now), js(ref))
				}
				// 2. one of the locations is changed; the others must not follow
				var locs []string
				var hits []string
				leafLocations(ref, "$", &locs)
				for _, l := range locs {
					lp, ok := parsePlain(l)
					if !ok {
						continue
					}
					if v, bad := rawAt(ref, lp); !bad && same(v, orig) {
						hits = append(hits, l)
					}
				}
				if len(hits) < 2 {
					return
				}
				for k := 0; k < 2; k++ {
					h := hits[g.Intn(len(hits))]
					sub := ".v"
					var sp step = step{kind: sProp, name: "v"}
					if _, ok := orig.(A); ok {
						sub, sp = "[0]", step{kind: sIndex, idx: []int{0}}
					}
					hp, ok := parsePlain(h)
					if !ok {
						return
					}
					nv := fmt.Sprintf("changed-%d", k)
					if err := refSet(ref, append(hp, sp), nv); err != nil {
						return
					}
					t.Input("doc=%s\nset %s = %s\nset %s = %q", js(doc), path, js(orig), h+sub, nv)
					if err := m.JsonPathSetter(h+sub, nv); err != nil {
						t.Fail("set-error", "%v", err)
					}
					if now := *m.GetInsides(); !same(now, ref) {
						t.Fail("locations-alias", "changing one of the locations set changed another\ngot  %s\nwant %s", js(now), js(ref))
					}
				}
				t.Count("aliased-sets-watched", 1)
				t.Nontrivial(fmt.Sprintf("%s %d %s", p.kinds(), len(hits), shapeOf(orig)))
			})
			// values that contain the same container several times themselves: each place in the document is its own
			r.Group("shared-within", r.N(4000, 60000), func(t *T) {
				g := gen{t.R, false}
				shared := []interface{}{M{"v": 1.0}, A{1.0}, M{"v": M{"v": A{1.0}}}, A{M{"v": 1.0}, A{2.0}}}[:]
				for i := range shared {
					if g.Intn(2) == 0 {
						if j := g.Intn(len(shared)); j < i {
							switch x := shared[i].(type) {
							case M:
								x["s"] = shared[j]
							case A:
								x[0] = shared[j]
							}
						}
					}
				}
				pick := func() interface{} { return shared[g.Intn(len(shared))] }
				one := pick()
				var value interface{}
				switch g.Intn(4) {
				case 0:
					value = M{"a": one, "b": one, "c": pick()}
				case 1:
					value = A{one, pick(), one}
				case 2:
					value = M{"a": M{"b": one}, "c": A{one, one}, "d": pick()}
				default:
					value = A{A{one}, M{"a": one, "b": A{pick()}}}
				}
				ref := M{"x": A{"keep", M{"a": 1.0}, A{}}, "y": M{"p": 1.0, "q": M{"a": 1.0}}, "l": A{1.0, M{"a": 2.0}}}
				m := jm(ref)
				log := ""
				step := func(format string, a ...interface{}) {
					log += fmt.Sprintf(format, a...) + "\n"
					t.Input("%s", log)
				}
				same2 := func(what string) {
					if now := *m.GetInsides(); !same(now, ref) {
						t.Fail(what, "the document is\n%s\nwant\n%s", js(now), js(ref))
					}
				}
				switch g.Intn(3) {
				case 0:
					idx := []int{0, g.Intn(3)}
					step("push %s to $.l at %v", js(value), idx)
					ref["l"] = modelPush(ref["l"].(A), value, idx)
					ref = deepCopyV(ref).(M)
					m.MustPush("$.l", value, idx...)
				case 1:
					step("set $.y.* = %s", js(value))
					ref["y"] = M{"p": deepCopyV(value), "q": deepCopyV(value)}
					m.MustSet("$.y.*", value)
				default:
					step("set $.x[1] = %s", js(value))
					ref["x"].(A)[1] = deepCopyV(value)
					m.MustSet("$.x[1]", value)
				}
				same2("locations-alias")
				for k := 0; k < 4; k++ {
					if k == 2 && g.Intn(2) == 0 {
						c := m.Clone(false)
						cm, ok := c.(*jom.JsonMap)
						if !ok {
							return
						}
						m = cm
						step("clone")
						same2("clone")
					}
					var locs []string
					leafLocations(ref, "$", &locs)
					at := locs[g.Intn(len(locs))]
					p, ok := parsePlain(at)
					if !ok || len(p) == 0 {
						continue
					}
					nv := fmt.Sprintf("changed-%d", k)
					after := deepCopyV(ref).(M)
					if refSet(after, p, nv) != nil {
						continue
					}
					step("set %s = %q", at, nv)
					if err := m.JsonPathSetter(at, nv); err != nil {
						return
					}
					ref = after
					same2("locations-alias")
				}
				t.Count("values-with-shared-parts", 1)
				t.Nontrivial(log)
			})
			// histories in which the same few containers, which the caller keeps and changes, are put at many places in
			// different ways, and read values are put elsewhere
			r.Group("histories", r.N(6000, 120000), func(t *T) {
				g := gen{t.R, false}
				ref := M{"a": M{"b": M{}, "c": A{}}, "l": A{M{"a": 1.0}, M{}, A{1.0}}, "m": M{"x": M{"a": A{}}, "y": M{"a": 2.0}}}
				m := jm(ref)
				inner := M{"q": 1.0}
				callers := []interface{}{M{"v": M{"w": A{1.0}}, "a": inner}, A{A{1.0}, M{"v": 1.0}}, A{inner, inner, M{"z": inner}}}
				if g.Intn(20) == 0 {
					callers[0] = M{"v": g.deep(inner, 20+g.Intn(60)), "a": inner}
				}
				targets := []string{"$.p", "$.q", "$.a", "$.a.b", "$.a.c", "$.a.d", "$.l[0]", "$.l[1]", "$.l[1].a", "$.l[2]", "$.m.x", "$.m.y", "$.m.x.a", "$.m.*", "$.l[0,1]", "$.l[0:2]", "$.m.*.a", "$..a", "$.l[*].k", "$.l[?(true)]", "$.*", "$...b"}
				var log []string
				step := func(format string, a ...interface{}) {
					log = append(log, fmt.Sprintf(format, a...))
					t.Input("%s", strings.Join(log, "\n"))
				}
				check := func(what string) {
					if now := *m.GetInsides(); !same(now, ref) {
						t.Fail(what, "the document is\n%s\nwant\n%s", js(now), js(ref))
					}
				}
				asPath := map[string]pathT{
					"$.m.*": {{kind: sProp, name: "m"}, {kind: sWildDot}}, "$.l[0,1]": {{kind: sProp, name: "l"}, {kind: sIndices, idx: []int{0, 1}}},
					"$.l[0:2]": {{kind: sProp, name: "l"}, {kind: sSlice, from: ip(0), to: ip(2)}}, "$.m.*.a": {{kind: sProp, name: "m"}, {kind: sWildDot}, {kind: sProp, name: "a"}},
					"$..a": {{kind: sRec, name: "a"}}, "$.l[*].k": {{kind: sProp, name: "l"}, {kind: sWildIdx}, {kind: sProp, name: "k"}},
					"$.l[?(true)]": {{kind: sProp, name: "l"}, {kind: sFilter, filter: constFilter(true)}}, "$.*": {{kind: sWildDot}}, "$...b": {{kind: sFirst, n: 1}, {kind: sProp, name: "b"}},
				}
				sets := 0
				for k := 0; k < 4+g.Intn(10) && len(js(ref)) < 20000; k++ {
					target := targets[g.Intn(len(targets))]
					p, ok := asPath[target]
					if !ok {
						p, _ = parsePlain(target)
					}
					switch g.Intn(5) {
					case 0: // the caller changes what they kept
						c := g.Intn(len(callers))
						step("caller changes value %d", c)
						switch x := callers[c].(type) {
						case M:
							x[g.key()] = g.scalar()
							if v, ok := x["v"].(M); ok {
								v[g.key()] = g.scalar()
							}
						case A:
							x[g.Intn(len(x))] = g.scalar()
						}
						inner[g.key()] = g.scalar()
						check("aliases-callers-value")
					case 1: // a small change at a place
						v := g.scalar()
						if v == nil {
							v = "x"
						}
						after := deepCopyV(ref).(M)
						if refSet(after, p, v) != nil {
							continue
						}
						step("set %s = %s", target, js(v))
						if m.JsonPathSetter(target, v) != nil {
							return
						}
						ref = after
						check("locations-alias")
					case 2: // push at several indices
						plain, isPlain := parsePlain(target)
						vs, err := refGet(ref, plain)
						raw, rawErr := rawAt(ref, plain)
						if _, isList := raw.(A); !isPlain || err != nil || rawErr || !isList {
							continue
						}
						c := g.Intn(len(callers))
						idx := []int{g.Intn(3), 3 + g.Intn(2)}
						after := deepCopyV(ref).(M)
						if refSet(after, plain, deepCopyV(modelPush(vs, callers[c], idx))) != nil {
							continue
						}
						step("push value %d %s to %s at %v", c, js(callers[c]), target, idx)
						m.MustPush(target, callers[c], idx...)
						ref = after
						sets++
						check("push")
					case 3: // what one path reads is put at another
						from := targets[g.Intn(len(targets))]
						fp, ok := asPath[from]
						if !ok {
							fp, _ = parsePlain(from)
						}
						vs, err := refGet(ref, fp)
						if err != nil || len(vs) == 0 {
							continue
						}
						at := g.Intn(len(vs))
						if vs[at] == nil {
							continue
						}
						after := deepCopyV(ref).(M)
						if refSet(after, p, deepCopyV(vs[at])) != nil {
							continue
						}
						step("set %s = the value %d of %s", target, at, from)
						got := m.MustGet(from)
						if !same(A(got), vs) {
							return // judged by C01
						}
						m.MustSet(target, got[at])
						ref = after
						sets++
						check("set-of-read-value")
					default:
						c := g.Intn(len(callers))
						after := deepCopyV(ref).(M)
						if refSet(after, p, deepCopyV(callers[c])) != nil {
							continue
						}
						step("set %s = value %d %s", target, c, js(callers[c]))
						if m.JsonPathSetter(target, callers[c]) != nil {
							return // judged by C04
						}
						ref = after
						sets++
						check("set")
					}
					if len(js(ref)) > 20000 {
						break
					}
				}
				t.Count("container-sets-in-histories", sets)
				if sets > 1 {
					t.Nontrivial(strings.Join(log, ";"))
				}
			})
		},
	})

	malformed := regexp.MustCompile(`^\$(\.+([A-Za-z_][A-Za-z0-9_-]*|\*)?|\[(-?\d+|-?\d+:|:-?\d+|\d+:\d+|\*|\d+(,\s*\d+)*)\])*\s*$`)
	register(&Check{
		ID:   "C06",
		Rule: "a case is a malformed path (mutated or random text that an independent grammar refuses, in 4 uses), or a path with an unsatisfiable step put at a random point, on a random document; non-trivial: a refused path, keyed by its text's shape or by the kind of step and value",
		Run: func(r *Runner) {
			must := func(t *T, doc M, path string) {
				t.Input("doc=%s path=%q", js(doc), path)
				m := jm(doc)
				nodes, err := m.JsonPathSelector(path)
				if err == nil {
					t.Fail("accepted-get", "no error; values %s", js(valuesOf(nodes)))
				}
				if len(nodes) != 0 {
					t.Fail("values-with-error", "an error (%v) and values: %s", err, js(valuesOf(nodes)))
				}
				if p := caught(func() { m.MustGet(path) }); p == nil {
					t.Fail("mustget-silent", "MustGet did not panic")
				} else if _, ok := p.(error); !ok {
					t.Fail("mustget-panics-without-error", "MustGet panicked with %v", p)
				}
				if !same(*m.GetInsides(), doc) {
					t.Fail("get-changed", "a refused query changed the document")
				}
				t.Count("refused-gets", 2)
			}
			mustSet := func(t *T, doc M, path string, value interface{}, frame bool) {
				t.Input("doc=%s path=%q value=%s", js(doc), path, js(value))
				m := jm(doc)
				if err := m.JsonPathSetter(path, value); err == nil {
					t.Fail("accepted-set", "no error; document now %s", js(*m.GetInsides()))
				}
				if frame && !same(*m.GetInsides(), doc) {
					t.Fail("refused-set-changed", "a refused set changed the document to %s", js(*m.GetInsides()))
				}
				m = jm(doc)
				if p := caught(func() { m.MustSet(path, value) }); p == nil {
					t.Fail("mustset-silent", "MustSet did not panic")
				} else if _, ok := p.(error); !ok {
					t.Fail("mustset-panics-without-error", "MustSet panicked with %v", p)
				}
				t.Count("refused-sets", 2)
			}
			alphabet := []string{"$", ".", "..", "...", "[", "]", "*", "a", "b1", "-", "_", " ", "0", "12", ",", ":", "?", "(", ")", "'", "\"", "@", "[?(", ")]", "[*]", "[0]", "[1:2]", "é", "\n", "\x00", "\\", "/", "#", "[-1]", "[:]", "[]", "99999999999999999999", "\xff"}
			r.Group("malformed-text", r.N(40000, 800000), func(t *T) {
				g := gen{t.R, false}
				var s string
				doc := store()
				if g.Intn(2) == 0 {
					s = "$"
				}
				if g.Intn(2) == 0 {
					for k := 0; k < 1+g.Intn(8); k++ {
						s += alphabet[g.Intn(len(alphabet))]
					}
				} else {
					// mutate a good path
					s = g.path(doc, 5).render()
					for k := 0; k < 1+g.Intn(2) && len(s) > 0; k++ {
						i := g.Intn(len(s))
						switch g.Intn(3) {
						case 0:
							s = s[:i] + s[i+1:]
						case 1:
							s = s[:i] + alphabet[g.Intn(len(alphabet))] + s[i:]
						case 2:
							s = s[:i] + alphabet[g.Intn(len(alphabet))] + s[i+1:]
						}
					}
				}
				if strings.Contains(s, "[?(") && strings.HasPrefix(s, "$") {
					// whether the text of a filter is fine is the interpreter's business: only look for crashes
					t.Input("doc=store path=%q", s)
					if strings.Contains(s, "while") {
						return
					}
					if _, err := jm(doc).JsonPathSelector(s); err != nil {
						t.Count("filter-text-refused", 1)
					}
					caught(func() { jm(doc).JsonPathSetter(s, "v") })
					return
				}
				if malformed.MatchString(s) && !hugeIndex.MatchString(s) {
					t.Input("doc=store path=%q", s)
					jm(doc).JsonPathSelector(s)
					jm(doc).JsonPathSetter(s, "v")
					t.Count("well-formed-by-chance", 1)
					return
				}
				must(t, doc, s)
				mustSet(t, doc, s, []interface{}{"v", nil}[g.Intn(2)], true)
				if e := caught(func() {
					if err := jm(doc).MarkupCode(s, "js", "1"); err == nil {
						t.Fail("accepted-markup", "MarkupCode accepted %q", s)
					}
				}); e != nil {
					t.Fail("markup-panics", "%v", e)
				}
				t.Nontrivial(clip(s, 200))
			})
			r.Group("unsatisfiable", r.N(15000, 250000), func(t *T) {
				g := gen{t.R, false}
				doc := g.anyDoc()
				// walk to a random place by plain keys
				var p pathT
				var cur interface{} = doc
				for d := g.Intn(5); d > 0; d-- {
					switch x := cur.(type) {
					case M:
						if ks := pathableKeys(x); len(ks) > 0 {
							k := ks[g.Intn(len(ks))]
							p, cur = append(p, step{kind: sProp, name: k}), x[k]
						}
					case A:
						if len(x) > 0 {
							i := g.Intn(len(x))
							p, cur = append(p, step{kind: sIndex, idx: []int{i}}), x[i]
						}
					}
				}
				var bad step
				frame := true
				switch x := cur.(type) {
				case M:
					switch g.Intn(5) {
					case 0:
						bad = step{kind: sProp, name: "no_such_key"}
					case 1:
						bad = step{kind: sIndex, idx: []int{g.Intn(3)}}
					case 2:
						g.slice(&bad, 2)
					case 3:
						bad = step{kind: sIndices, idx: []int{0, 1}}
					case 4:
						if _, ok := firstContainer(x); ok {
							bad = step{kind: sProp, name: "no_such_key"}
						} else {
							bad = step{kind: sFirst, n: 1}
						}
					}
				case A:
					switch g.Intn(8) {
					case 6:
						// a list of which only some indices exist
						if len(x) == 0 {
							return
						}
						idx := []int{g.Intn(len(x)), len(x) + g.Intn(5)}
						for k := g.Intn(3); k > 0; k-- {
							idx = append(idx, g.Intn(len(x)))
						}
						g.Shuffle(len(idx), func(a, b int) { idx[a], idx[b] = idx[b], idx[a] })
						bad, frame = step{kind: sIndices, idx: idx}, false
					case 7:
						// a list of which all indices exist but only some can be followed by a key or an index
						var good, wrong []int
						for i, e := range x {
							if _, ok := e.(M); ok {
								wrong = append(wrong, i)
							} else if l, ok := e.(A); ok && len(l) > 0 {
								good = append(good, i)
							} else {
								wrong = append(wrong, i)
							}
						}
						if len(good) == 0 || len(wrong) == 0 {
							return
						}
						idx := []int{good[g.Intn(len(good))], wrong[g.Intn(len(wrong))]}
						g.Shuffle(2, func(a, b int) { idx[a], idx[b] = idx[b], idx[a] })
						p = append(p, step{kind: sIndices, idx: idx})
						bad, frame = step{kind: sIndex, idx: []int{0}}, false
					case 0:
						bad = step{kind: sIndex, idx: []int{len(x) + g.Intn(3)}}
					case 1:
						bad = step{kind: sFirst, n: 1}
					case 2:
						bad = step{kind: sIndex, idx: []int{-1 - g.Intn(3)}}
					case 3:
						bad = step{kind: sSlice, from: ip(0), to: ip(len(x) + 1 + g.Intn(20))}
					case 4:
						bad = step{kind: sSlice, from: ip(len(x) + 1 + g.Intn(3))}
					case 5:
						bad = step{kind: sSlice, from: ip(-len(x) - 1 - g.Intn(3))}
					}
				default:
					bad = []step{{kind: sProp, name: "a"}, {kind: sIndex, idx: []int{0}}, {kind: sWildDot}, {kind: sWildIdx}, {kind: sSlice, from: ip(0), to: ip(1)}, {kind: sRec, name: "a"}, {kind: sFirst, n: 1}, {kind: sFilter, filter: rawFilter("true")}}[g.Intn(8)]
				}
				missing := bad.kind == sProp && bad.name == "no_such_key"
				p = append(p, bad)
				if g.Intn(2) == 0 || missing {
					tail := []step{{kind: sProp, name: "b"}, {kind: sIndex, idx: []int{0}}, {kind: sWildIdx}}[g.Intn(3)]
					if bad.kind == sFirst {
						tail = step{kind: sProp, name: "b"}
					}
					p = append(p, tail)
				}
				path := p.render()
				must(t, doc, path)
				mustSet(t, doc, path, "v", frame)
				mustSet(t, doc, path, nil, frame)
				t.Nontrivial(fmt.Sprintf("%s at %s depth %d", p.kinds(), shapeOf(cur), len(p)))
			})
			lits := []string{"", " ", "$$", "a", "$a", "$[", "$]", "$[]", "$[a]", "$['a']", "$.a[", "$.store.book[", "$.store.book[0", "$.store.book[0]x", "$.store.book[0:1:2]", "$.store.book[:]", "$.store.book[1,]", "$.store.book[,1]", "$.store.book[1 2]", "$.store.book[?]", "$.store.book[?(]", "$.store.book[?(@.a", "$.store.book[?(@.a)", "$.1a", "$.a b", "$.-a", "$.é", "@", "x$.store", " $.store", "store.$", "$.store.book[99999999999999999999]", "$.store.book[0:99999999999999999999]", "$.store.book[0,99999999999999999999]", "$.store book", "$.store.book[+1]", "$.store.book[1.5]", "$.store.book[0x1]", "$.store.book[- 1]", "$.store.book[1--1]", "$.store.book[:-]", "$.store.book[*,1]", "$.store.book[**]", "$.**", "$.store/book", "$..", "$..["}
			List(r, "literal", lits, func(t *T, s string) {
				if malformed.MatchString(s) && !hugeIndex.MatchString(s) {
					return
				}
				must(t, store(), s)
				mustSet(t, store(), s, "v", true)
				mustSet(t, store(), s, nil, true)
				t.Nontrivial(s)
			})
			filters := []string{"$.store.book[?()]", "$.store.book[?(@.)]", "$.store.book[?(@.a +)]", "$.store.book[?(undefinedName)]", "$.store.book[?(@.a.b.c)]", "$.store.book[?(throw 1)]", "$.store.book[?($.nothing.here > 1)]", "$.store.book[?(@.price > $.nothing )]", "$.store.book[?(@.price > $[0] )]", "$.store.book[?(}{)]", "$.store.book[?(@.x.y())]", "$.store.book[?((function f(){ return f() })())]", "$.store.book[?(null.x)]", "$.store.book[?(@ @)]", "$.people[?($.store.book[?(nope)])]"}
			List(r, "filters", filters, func(t *T, s string) {
				must(t, store(), s)
				mustSet(t, store(), s, "v", true)
				mustSet(t, store(), s, nil, true)
				t.Nontrivial(s)
			})
		},
	})

	register(&Check{
		ID:   "C08",
		Rule: "a case is a history of 3 to 12 pushes and pops on arrays of one document (random indices: unsorted, duplicated, past the end, negative for pops), with values that carry unique identifiers, checked against a list model and for conservation of identifiers; non-trivial: keyed by the index lists and lengths",
		Run: func(r *Runner) {
			r.Group("random", r.N(12000, 200000), func(t *T) {
				g := gen{t.R, false}
				lists := map[string]A{"$.q": {}, "$.d.r": {}, "$.l[1]": {}, "$.l[3]": {}}
				names := []string{"$.q", "$.d.r", "$.l[1]", "$.l[3]"}
				id := 0
				fresh := func() interface{} {
					id++
					switch g.Intn(5) {
					case 0:
						return M{"id": float64(id)}
					case 2:
						part := M{"part": float64(id)}
						return M{"id": float64(id), "p1": part, "p2": A{part}}
					case 1:
						return A{float64(id), "x"}
					}
					return float64(id)
				}
				big := g.Intn(25) == 0
				for _, n := range names {
					k := g.Intn(5)
					if big && g.Intn(2) == 0 {
						k = 20 + g.Intn(200)
					}
					for ; k > 0; k-- {
						lists[n] = append(lists[n], fresh())
					}
				}
				build := func() M {
					return M{"q": deepCopyV(lists["$.q"]), "d": M{"r": deepCopyV(lists["$.d.r"]), "s": "keep"}, "l": A{"keep", deepCopyV(lists["$.l[1]"]), A{1.0}, deepCopyV(lists["$.l[3]"])}}
				}
				start := build()
				m := jm(start)
				var log []string
				for k := 0; k < 3+g.Intn(10); k++ {
					n := names[g.Intn(4)]
					at := n
					if len(lists[n]) > 0 && g.Intn(3) == 0 {
						// the same array by another path
						alt := map[string][]string{"$.q": {"$..q", "$.q"}, "$.d.r": {"$..r", "$...r", "$.d..r"}, "$.l[1]": {"$.l[1]"}, "$.l[3]": {"$.l[3]"}}[n]
						at = alt[g.Intn(len(alt))]
					}
					var idx []int
					c, past := g.Intn(4), 3
					if big {
						past = 3 + g.Intn(2)*g.Intn(200)
						if g.Intn(4) == 0 {
							c = g.Intn(60)
						}
					}
					if !big && g.Intn(150) == 0 {
						// far past the end
						idx = append(idx, len(lists[n])+[]int{63, 64, 255, 256, 1023, 1024, 1025, 2100, 3000}[g.Intn(9)])
					}
					for ; c > 0; c-- {
						idx = append(idx, g.Intn(len(lists[n])+past))
						if g.Intn(4) == 0 {
							idx = append(idx, idx[g.Intn(len(idx))])
						}
					}
					if g.Intn(2) == 0 {
						v := fresh()
						log = append(log, fmt.Sprintf("push %s %s at %v", at, js(v), idx))
						t.Input("doc=%s\n%s", js(start), strings.Join(log, "\n"))
						// the indices are a part of a longer slice, which stays as it is
						more := append(append([]int{}, idx...), 77, 78)
						given := fmt.Sprint(more)
						m.MustPush(at, v, more[:len(idx)]...)
						if given != fmt.Sprint(more) {
							t.Fail("indices-modified", "the caller's indices were %v (and more), %v, and are now %v", idx, given, more)
						}
						lists[n] = modelPush(lists[n], v, idx)
						// the caller goes on using the value
						switch x := v.(type) {
						case M:
							lists[n] = deepCopyV(lists[n]).(A)
							x["id"] = "gone"
						}
						t.Count("pushes", 1)
						// one of the elements is changed: no other may follow
						if _, ok := v.(M); ok && g.Intn(2) == 0 {
							lists[n] = deepCopyV(lists[n]).(A)
							for i, e := range lists[n] {
								if x, ok := e.(M); ok && g.Intn(3) == 0 {
									sub, o := ".id", interface{}(x)
									if p, ok := x["p1"].(M); ok && g.Intn(2) == 0 {
										sub, o = ".p1.part", p
									}
									sub = fmt.Sprintf("%s[%d]%s", n, i, sub)
									log = append(log, fmt.Sprintf("set %s", sub))
									t.Input("doc=%s\n%s", js(start), strings.Join(log, "\n"))
									m.MustSet(sub, "changed")
									o.(M)[sub[strings.LastIndex(sub, ".")+1:]] = "changed"
									break
								}
							}
						}
					} else {
						for g.Intn(4) == 0 {
							idx = append(idx, -1-g.Intn(3))
							i := g.Intn(len(idx))
							idx[i], idx[len(idx)-1] = idx[len(idx)-1], idx[i]
						}
						log = append(log, fmt.Sprintf("pop %s at %v", at, idx))
						t.Input("doc=%s\n%s", js(start), strings.Join(log, "\n"))
						more := append(append([]int{}, idx...), 77, 78)
						given := fmt.Sprint(more)
						got := m.MustPop(at, more[:len(idx)]...)
						if given != fmt.Sprint(more) {
							t.Fail("indices-modified", "the caller's indices were %v (and more), %v, and are now %v", idx, given, more)
						}
						rest, popped := modelPop(lists[n], idx)
						if !same(A(got), popped) {
							t.Fail("popped-wrong", "popped %s, want %s", js(got), js(popped))
						}
						lists[n] = rest
						t.Count("pops", 1)
					}
					if now, want := *m.GetInsides(), build(); !same(now, want) {
						t.Fail("push-pop", "got  %s\nwant %s", js(now), js(want))
					}
					t.Nontrivial(fmt.Sprintf("%s %v %d", log[len(log)-1][:4], idx, len(lists[n])))
				}
			})
			List(r, "nothing-there", []string{"$.nope", "$.a.nope", "$.l[9]", "$.l[?(false)]", "bad", "$.e[*]", "$.n[*]", "$.n[0:]", "$.n[?(true)]", "$.n.x", "$..nope", "$.l[1:]"}, func(t *T, path string) {
				doc := M{"a": M{}, "l": A{1.0}, "e": M{}, "n": A{}}
				t.Input("path=%s", path)
				m := jm(doc)
				if caught(func() { m.MustPush(path, 1.0) }) == nil {
					t.Fail("push-silent", "MustPush at %s did not panic; document %s", path, js(*m.GetInsides()))
				}
				if caught(func() { m.MustPop(path) }) == nil {
					t.Fail("pop-silent", "MustPop at %s did not panic; document %s", path, js(*m.GetInsides()))
				}
				if !same(*m.GetInsides(), doc) {
					t.Fail("refused-changed", "document is now %s", js(*m.GetInsides()))
				}
				t.Nontrivial(path)
			})
			_ = jom.New
		},
	})
}

// parsePlain reads a path of properties and single indices.
var plainStep = regexp.MustCompile(`^(\.([a-zA-Z_][a-zA-Z0-9_-]*)|\[(\d+)\])`)

func parsePlain(s string) (p pathT, ok bool) {
	s = strings.TrimPrefix(s, "$")
	for s != "" {
		m := plainStep.FindStringSubmatch(s)
		if m == nil {
			return nil, false
		}
		if m[2] != "" {
			p = append(p, step{kind: sProp, name: m[2]})
		} else {
			i := 0
			fmt.Sscan(m[3], &i)
			p = append(p, step{kind: sIndex, idx: []int{i}})
		}
		s = s[len(m[0]):]
	}
	return p, true
}

// modelPush inserts v so that it ends up at each of the given indices; gaps are null.
func modelPush(l A, v interface{}, idx []int) A {
	if len(idx) == 0 {
		return append(append(A{}, l...), v)
	}
	at := map[int]bool{}
	max := 0
	for _, i := range idx {
		at[i] = true
		if i > max {
			max = i
		}
	}
	n := len(l) + len(at)
	if max+1 > n {
		n = max + 1
	}
	out := A{}
	rest := l
	for i := 0; i < n; i++ {
		switch {
		case at[i]:
			out = append(out, v)
		case len(rest) > 0:
			out = append(out, rest[0])
			rest = rest[1:]
		default:
			out = append(out, nil)
		}
	}
	return out
}

func modelPop(l A, idx []int) (rest, popped A) {
	rest, popped = A{}, A{}
	if len(idx) == 0 {
		idx = []int{0}
	}
	at := map[int]bool{}
	for _, i := range idx {
		at[i] = true
	}
	for i, e := range l {
		if at[i] {
			popped = append(popped, e)
		} else {
			rest = append(rest, e)
		}
	}
	return
}

// constFilter is a filter that keeps everything or nothing.
type constFilter bool

func (f constFilter) src() string                                        { return fmt.Sprint(bool(f)) }
func (f constFilter) eval(node interface{}, root M) (interface{}, error) { return bool(f), nil }
func (f constFilter) truth(node interface{}, root M) (bool, error)       { return bool(f), nil }

// rawAt is the one value at a plain path (arrays as they are).
func rawAt(doc M, p pathT) (v interface{}, failed bool) {
	v = doc
	for _, s := range p {
		if _, isList := v.(A); isList && s.kind == sProp {
			return nil, true
		}
		vs, err := evalRaw(v, s, doc)
		if err != nil || len(vs) != 1 {
			return nil, true
		}
		v = vs[0]
	}
	return v, false
}
