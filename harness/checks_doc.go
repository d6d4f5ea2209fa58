package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// renderJSON writes a value as JSON, using the freedoms of the syntax: white space, escapes, notations of numbers.
func renderJSON(g gen, v interface{}) string {
	var b strings.Builder
	ws := func() {
		if g.Intn(6) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "\r\n", "  \n "}[g.Intn(5)])
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		for _, c := range s {
			u := func(c rune) { fmt.Fprintf(&b, []string{"\\u%04x", "\\u%04X"}[g.Intn(2)], c) }
			switch {
			case g.Intn(8) == 0 && c > 0xffff:
				hi, lo := utf16.EncodeRune(c)
				u(hi)
				u(lo)
			case g.Intn(8) == 0 && c <= 0xffff:
				u(c)
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c == '/' && g.Intn(3) == 0:
				b.WriteString("\\/")
			case c == '\n':
				b.WriteString("\\n")
			case c == '\t':
				b.WriteString("\\t")
			case c == '\r':
				b.WriteString("\\r")
			case c == '\b' && g.Intn(2) == 0:
				b.WriteString("\\b")
			case c == '\f' && g.Intn(2) == 0:
				b.WriteString("\\f")
			case c < 32:
				u(c)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	}
	var w func(v interface{})
	w = func(v interface{}) {
		ws()
		switch x := v.(type) {
		case M:
			b.WriteByte('{')
			for i, k := range g.Perm(len(x)) {
				if i > 0 {
					b.WriteByte(',')
				}
				key := keysOf(x)[k]
				ws()
				str(key)
				ws()
				b.WriteByte(':')
				w(x[key])
			}
			ws()
			b.WriteByte('}')
		case A:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				w(e)
			}
			ws()
			b.WriteByte(']')
		case string:
			str(x)
		case float64:
			s := strconv.FormatFloat(x, []byte("gefE"[g.Intn(4):])[0], -1, 64)
			b.WriteString(s)
		default:
			b.WriteString(js(v))
		}
		ws()
	}
	w(v)
	return b.String()
}

var wideStrings = []string{"😀", "a😀b\U0001F680", "\U0010FFFF", "\uFFFD", "\u2028\u2029", "\u0080", "\x7f", "\b\f", "\u00e9\u0301", "\U0001D11E clef", "mixed 日本 😀 \"q\" \\ / \t \n", "\\ud83d", "\\u0041", "%s%d", "\\", "\"", "'''\n'''", "'", "''", "{", "}", "[", "]", ":", ",", "#", "//", "/*", "*/", "true", "false", "null", "0", "-1", "1e5", " ", "  x  ", "\n", "\n\n", "line\n", "\nline", "a\n\n  b\n", "\tx", "x\t", "#//!", "\x00", "\ufeff", "\ufeffx"}

// textDoc makes a document with all kinds of strings and keys. It has no scripts.
func (g gen) textDoc(depth int) interface{} {
	var v func(d int) interface{}
	key := func() string {
		switch g.Intn(6) {
		case 0:
			if g.Intn(3) == 0 {
				return g.spiced()
			}
			return wideStrings[g.Intn(len(wideStrings))]
		case 1:
			return oddKeys[g.Intn(len(oddKeys))]
		}
		return pathKeys[g.Intn(len(pathKeys))]
	}
	v = func(d int) interface{} {
		r := g.Intn(8)
		if d <= 0 && r < 4 {
			r += 4
		}
		switch r {
		case 0, 1:
			m := M{}
			for k := g.Intn(5); k > 0; k-- {
				m[key()] = v(d - 1)
			}
			return m
		case 2, 3:
			a := A{}
			for k := g.Intn(5); k > 0; k-- {
				a = append(a, v(d-1))
			}
			return a
		case 4:
			if g.Intn(3) == 0 {
				return g.spiced()
			}
			return wideStrings[g.Intn(len(wideStrings))]
		case 5:
			return []float64{g.NormFloat64(), g.ExpFloat64() * 1e10, float64(g.Int63()), float64(g.Intn(1000)) / 8, -float64(g.Intn(1 << 30)), 1.7976931348623157e308, 5e-324, 1e22, 123456.789, 0.1 + 0.2}[g.Intn(10)]
		}
		return g.scalar()
	}
	for {
		r := v(depth)
		if isObj(r) {
			return r
		}
		if _, ok := r.(A); ok {
			return r
		}
	}
}

func asDoc(root interface{}) (doc M, array bool) {
	if a, ok := root.(A); ok {
		return M{"array": a}, true
	}
	return root.(M), false
}

func init() {
	register(&Check{
		ID:     "C18",
		Rule:   "a case is a random document (object or array root; all kinds of strings, keys and numbers) written as JSON or Hjson with random white space, escapes, comments and quoting, read and written again, or a history of texts read into one object; non-trivial: all, keyed by notation and shapes",
		Assume: []string{"the texts are written by generators that only use notations whose meaning is fixed by the JSON and Hjson syntax", "negative zero counts as zero"},
		Run: func(r *Runner) {
			stage := ""
			expect := func(t *T, m *jom.JsonMap, root interface{}) {
				doc, array := asDoc(root)
				if m.IsArray() != array {
					t.Fail(stage+"is-array", "IsArray gives %v", m.IsArray())
				}
				if !same(*m.GetInsides(), doc) {
					t.Fail(stage+"content", "got  %s\nwant %s", js(*m.GetInsides()), js(doc))
				}
			}
			trip := func(t *T, g gen, root interface{}, src string, notation string) {
				t.Input("%s", src)
				m := jom.New()
				if err := m.Unmarshal([]byte(src)); err != nil {
					t.Fail("rejected", "%v", err)
				}
				expect(t, m, root)
				out, err := m.Marshal()
				var back interface{}
				if err != nil || json.Unmarshal(out, &back) != nil || !same(back, root) {
					t.Fail("marshal", "written as %s, %v", out, err)
				}
				m2 := jom.New()
				if err := m2.Unmarshal(out); err != nil {
					t.Fail("marshal-unreadable", "%v: %s", err, out)
				}
				expect(t, m2, root)
				// the written text, which is Hjson
				text := m.String()
				m3 := jom.New()
				if err := m3.Unmarshal([]byte(text)); err != nil {
					t.Fail("string-unreadable", "%v: %s", err, text)
				}
				stage = "string-"
				expect(t, m3, root)
				stage = ""
				// nothing of this changed the document
				expect(t, m, root)
				// without scripts, evaluation gives the document back
				ev, err := evalSafe(t, []byte(src))
				if err != nil || !bytes.Equal(ev, out) {
					t.Fail("eval", "evaluated to %s, %v; written as %s", ev, err, out)
				}
				t.Count("round-trips", 4)
				t.Nontrivial(notation + clip(shapes(root, 3), 60))
			}
			root := func(g gen) interface{} {
				switch g.Intn(3) {
				case 0:
					return g.textDoc(1 + g.Intn(4))
				case 1:
					return g.anyDoc()
				}
				if g.Intn(3) == 0 {
					return M{"array": g.arr(2)}
				}
				return g.arr(1 + g.Intn(3))
			}
			r.Group("json", r.N(5000, 150000), func(t *T) {
				g := gen{t.R, t.R.Intn(2) == 0}
				v := root(g)
				trip(t, g, v, renderJSON(g, v), "json ")
			})
			r.Group("hjson", r.N(5000, 150000), func(t *T) {
				g := gen{t.R, t.R.Intn(2) == 0}
				v := root(g)
				trip(t, g, v, renderHjson(g, v, true), "hjson ")
			})
			// texts that are far longer, wider or deeper than what people write by hand
			r.Group("large", r.N(60, 1500), func(t *T) {
				g := gen{t.R, false}
				var v interface{}
				switch g.Intn(4) {
				case 0:
					v = g.bigDoc()
				case 1:
					v = M{"a": g.deep(g.textDoc(1), 100+g.Intn(400)), "b": g.textDoc(1)}
				case 2:
					l := A{}
					for size := 0; size < 70000; {
						e := g.textDoc(2)
						l = append(l, e)
						size += len(js(e))
					}
					v = l
				default:
					s := ""
					for n := 66000 + g.Intn(70000); len(s) < n; {
						s += strings.Repeat(strPool[g.Intn(len(strPool))]+"😀", 1+g.Intn(40))
					}
					v = M{"text": s, strings.Repeat("key😀", 10+g.Intn(1000)): A{s[:len(s)-4]}}
				}
				if g.Intn(3) > 0 {
					trip(t, g, v, renderJSON(g, v), "large json ")
				} else {
					trip(t, g, v, renderHjson(g, v, true), "large hjson ")
				}
				t.Count("large-texts", 1)
			})
			// one object reads one text after the other
			r.Group("reuse", r.N(1500, 40000), func(t *T) {
				g := gen{t.R, t.R.Intn(2) == 0}
				m := jom.New()
				var log []string
				var cur interface{} = M{}
				for k := 2 + g.Intn(6); k > 0; k-- {
					v := root(g)
					var src string
					switch g.Intn(3) {
					case 0:
						src = renderJSON(g, v)
					case 1:
						src = renderHjson(g, v, true)
					case 2:
						src = []string{"{", "[", "{\"a\": 1", "[1, 2", "{a: 1}}", "[1]]", "\"x\"", "5", "true", "null", "{\"a\" 1}", "{a: {b: }", "'''x", "{\"a\": \"\n\"}", "plain", "[{a: 1}", "{}{}", "[][]"}[g.Intn(18)]
						v = nil
					}
					log = append(log, src)
					t.Input("%s", strings.Join(log, "\n----\n"))
					err := m.Unmarshal([]byte(src))
					if v == nil {
						if err == nil {
							t.Fail("accepted", "accepted as %s", js(*m.GetInsides()))
						}
						expect(t, m, cur)
						t.Count("rejected", 1)
						continue
					}
					if err != nil {
						t.Fail("rejected", "%v", err)
					}
					cur = v
					expect(t, m, cur)
					if g.Intn(3) == 0 {
						if out, err := m.Marshal(); err != nil || !same(parseJSON(out), cur) {
							t.Fail("marshal", "written as %s, %v, want %s", out, err, js(cur))
						}
					}
					if _, ok := cur.(M); ok && g.Intn(4) == 0 {
						cur = deepCopyV(cur)
						cur.(M)["added"] = 5.0
						m.MustSet("$.added", 5.0)
						expect(t, m, cur)
					}
					t.Count("texts-read", 1)
				}
				t.Nontrivial(fmt.Sprint("reuse ", len(log), shapes(cur, 2)))
			})
			// what cannot be written is an error
			bad := []interface{}{func(json_map.JsonMapInt) {}, make(chan int), complex(1, 2)}
			List(r, "unwritable", bad, func(t *T, v interface{}) {
				t.Input("%T", v)
				for _, doc := range []M{{"x": v}, {"a": A{M{"x": v}}}} {
					var err error
					var out []byte
					m := jom.NewFromMap(doc)
					if p := caught(func() { out, err = m.Marshal() }); p != nil || err == nil || len(out) != 0 {
						t.Fail("unwritable", "gave %q, %v, panic %v", out, err, p)
					}
				}
			})
			// hjson-surrogates is known to fail, within the Hjson decoder
			lit := []struct{ sig, src, want string }{
				{"hjson-surrogates", "{a: \"\\ud83d\\ude00\"}", "😀"},
				{"", "{\"a\": \"\\ud83d\\ude00\"}", "😀"},
				{"", "[\"\\uD83D\\uDE80\"]", "🚀"},
				{"", "{\"a\": \"x\\r\\ny\"}", "x\r\ny"}, {"", "{\"a\": \"\\u00a0\"}", "\u00a0"}, {"", "{\"a\\u0001b\": \"x\"}", "x"}, {"", "{a: \"x\\r\\ny\\t\"}", "x\r\ny\t"}, {"", "{a: \"\\tline\\nline\"}", "\tline\nline"},
			}
			List(r, "literal", lit, func(t *T, c struct{ sig, src, want string }) {
				t.Input("%s", c.src)
				m := jom.New()
				err := m.Unmarshal([]byte(c.src))
				got := func() interface{} {
					for _, v := range *m.GetInsides() {
						if a, ok := v.(A); ok {
							return a[0]
						}
						return v
					}
					return nil
				}
				if err != nil || got() != c.want {
					t.Fail(c.sig+"-read", "%q read as %q, %v", c.src, got(), err)
				}
				text := m.String()
				if err := m.Unmarshal([]byte(text)); err != nil || got() != c.want {
					t.Fail(c.sig+"-written", "%q written as %q, which is read as %q, %v", c.want, text, got(), err)
				}
				t.Nontrivial("literal " + c.src)
			})
		},
	})

	register(&Check{
		ID:   "C19",
		Rule: "a case is a history of finding, stripping, running, writing, editing and marking up on one document with scripts (JavaScript or Go callbacks), compared with a model after every step; non-trivial: scripts were stripped or run, keyed by the history and the number of scripts",
		Run: func(r *Runner) {
			r.Group("history", r.N(4000, 100000), func(t *T) {
				goLang := t.R.Intn(3) == 0
				g := &sgen{gen: gen{t.R, false}, budget: 8}
				model := g.doc()
				if g.Intn(40) == 0 {
					model = g.bigDoc()
				}
				var got []event
				record := func(e event) { got = append(got, e) }
				var m *jom.JsonMap
				array := false
				if goLang {
					t.Input("Go callbacks in %s", js(modelStrip(model)))
					m = jom.NewFromMap(toReal(model, true, record).(M))
				} else {
					src := js(toReal(model, false, nil))
					if g.Intn(4) == 0 {
						a := g.sarr(2)
						model, array = M{"array": a}, true
						src = js(toReal(a, false, nil))
					}
					t.Input("%s", src)
					m = jom.New()
					if err := m.Unmarshal([]byte(src)); err != nil {
						t.Fail("unmarshal", "%v", err)
					}
				}
				had := countScripts(model)
				hist := ""
				in := t.input
				n := 1 + g.Intn(6)
				events := func() []event {
					if goLang {
						e := got
						got = nil
						return e
					}
					return jsEvents(stdoutBuf.take())
				}
				events()
				for k := 0; k < n; k++ {
					op := []string{"find", "strip", "run", "write", "set", "mark", "get", "strip"}[g.Intn(8)]
					if k == 0 && g.Intn(2) == 0 {
						op = "strip"
					}
					hist += op + " "
					t.Input("%s\n%s", in, hist)
					var want []event
					silent := true
					switch op {
					case "find":
						if f := m.FindScriptFields(); f != (countScripts(model) > 0) {
							t.Fail("find", "finding scripts gave %v; there are %d", f, countScripts(model))
						}
					case "strip":
						m.Strip()
						model = modelStrip(model).(M)
						if m.FindScriptFields() {
							t.Fail("strip-left", "scripts are found after stripping: %s", js(*m.GetInsides()))
						}
					case "run":
						silent = false
						ref := cloneModel(model).(M)
						modelRun(ref, "$", func(e event) { want = append(want, e) })
						if p := runDoc(m); p != nil {
							t.Fail("run", "%v", p)
						}
						model = modelStrip(ref).(M)
					case "write":
						out, err := m.Marshal()
						if goLang && countScripts(model) > 0 {
							if err == nil {
								t.Fail("write-callbacks", "callbacks were written as %s", out)
							}
						} else if err != nil {
							t.Fail("write", "%v", err)
						} else {
							var w interface{} = toReal(model, false, nil)
							if array {
								w = w.(M)["array"]
							}
							if !same(parseJSON(out), w) {
								t.Fail("write-content", "written as %s, want %s", out, js(w))
							}
						}
					case "set":
						v := g.value(1)
						key := fmt.Sprintf("w%d", g.Intn(3))
						if !array {
							if v == nil {
								delete(model, key)
							} else {
								model[key] = v
							}
							if err := m.JsonPathSetter("$."+key, deepCopyV(v)); err != nil {
								t.Fail("set", "%v", err)
							}
						}
					case "mark":
						if !goLang && !array {
							key := []string{"mk", "Mk", "zmk"}[g.Intn(3)]
							g.nextID++
							s := &scriptV{id: fmt.Sprintf("m%d", g.nextID), effects: []effect{{"set", "marked", key}}}
							if err := m.MarkupCode("$."+key, "js", strings.TrimPrefix(s.source(), "#//!js\n")); err != nil {
								t.Fail("mark", "%v", err)
							}
							model[key] = s
							had++
						}
					case "get":
						m.JsonPathSelector("$..a")
						m.JsonPathSelector("$.*")
						_ = m.Clone(false)
						_ = m.IsArray()
						if !goLang {
							_ = m.String()
						}
					}
					ev := events()
					if silent && len(ev) > 0 {
						t.Fail("executed", "%s executed scripts: %v", op, ev)
					}
					if msg := checkOrder(ev, want); msg != "" {
						t.Fail("run-events", "%s\ntrace %v\nmodel %v", msg, ev, want)
					}
					t.Count("scripts-run", len(ev))
					now := *m.GetInsides()
					if goLang {
						// callbacks cannot be compared
						if !same(withoutFuncs(now), modelStrip(model)) || countFuncs(now) != countScripts(model) {
							t.Fail("content", "after %s: %s and %d callbacks, want %s and %d", hist, js(withoutFuncs(now)), countFuncs(now), js(modelStrip(model)), countScripts(model))
						}
					} else if w := toReal(model, false, nil); !same(now, w) {
						t.Fail("content", "after %s: %s\nwant %s", hist, js(now), js(w))
					}
					if m.IsArray() != array {
						t.Fail("is-array", "after %s", hist)
					}
					t.Count("steps", 1)
				}
				if had > 0 {
					t.Nontrivial(fmt.Sprint(hist, had, goLang, array))
				}
			})
		},
	})

	register(&Check{
		ID:   "C20",
		Rule: "a case is a document and its clone, on which random edits (sets, deletes, pushes, pops, edits of the maps themselves, stripping, running, reading another text) are applied to either side in turn; the other side must not change and both must follow the model; non-trivial: at least one edit, keyed by the edits and sides",
		Run: func(r *Runner) {
			r.Group("twins", r.N(5000, 120000), func(t *T) {
				g := gen{t.R, false}
				var root interface{} = g.anyDoc()
				if g.Intn(4) == 0 {
					root = g.arr(3)
				}
				doc, array := asDoc(root)
				m := jom.New()
				if g.Intn(3) > 0 {
					if err := m.Unmarshal([]byte(js(root))); err != nil {
						t.Fail("unmarshal", "%v", err)
					}
				} else {
					m = jom.NewFromMap(deepCopyV(doc).(M))
					m.Array = array
				}
				sides := []json_map.JsonMapInt{m, m.Clone(false)}
				if g.Intn(3) == 0 {
					sides = append(sides, sides[1].Clone(false))
				}
				docs := []M{deepCopyV(doc).(M), deepCopyV(doc).(M), deepCopyV(doc).(M)}[:len(sides)]
				arrays := []bool{array, array, array, array}
				if g.Intn(3) == 0 {
					sides, docs = append(sides, sides[g.Intn(len(sides))].Clone(true)), append(docs, M{})
				}
				var log []string
				scopes := make([]string, len(sides))
				for i, s := range sides {
					scopes[i] = s.GetCurrentScopePath()
				}
				check := func() {
					t.Input("%s\n%s", js(doc), strings.Join(log, "\n"))
					for i, s := range sides {
						if !same(*s.GetInsides(), docs[i]) {
							t.Fail("shared", "side %d is %s\nwant %s", i, js(*s.GetInsides()), js(docs[i]))
						}
						if s.IsArray() != arrays[i] {
							t.Fail("is-array", "side %d: %v", i, s.IsArray())
						}
						if s.GetCurrentScopePath() != scopes[i] {
							t.Fail("scope-path", "side %d is at %q, was at %q", i, s.GetCurrentScopePath(), scopes[i])
						}
						w := interface{}(docs[i])
						if arrays[i] {
							w = docs[i]["array"]
						}
						if out, err := s.Marshal(); err != nil || !same(parseJSON(out), w) {
							t.Fail("written", "side %d is written as %s, %v, want %s", i, out, err, js(w))
						}
					}
				}
				check()
				ops := ""
				for k := 1 + g.Intn(5); k > 0; k-- {
					i := g.Intn(len(sides))
					s := sides[i]
					op := g.Intn(7)
					switch op {
					case 0, 1: // through a path
						p := g.path(docs[i], 1+g.Intn(4))
						var v interface{}
						if op == 1 {
							v = g.value(2)
						}
						try := deepCopyV(docs[i]).(M)
						if err := refSet(try, p, v); err != nil {
							continue
						}
						log = append(log, fmt.Sprintf("side %d: %s = %s", i, p.render(), js(v)))
						t.Input("%s\n%s", js(doc), strings.Join(log, "\n"))
						if err := s.JsonPathSetter(p.render(), v); err != nil {
							t.Fail("set", "%v", err)
						}
						docs[i] = try
					case 2: // on the maps and arrays themselves
						n := 0
						var edit func(real, ref interface{})
						seed := t.R.Int63()
						edit = func(real, ref interface{}) {
							rr := newRand(seed + int64(n))
							n++
							switch x := real.(type) {
							case M:
								y := ref.(M)
								for _, k := range keysOf(x) {
									if rr.Intn(3) == 0 {
										x[k], y[k] = "edited", "edited"
									} else {
										edit(x[k], y[k])
									}
								}
								x["fresh"], y["fresh"] = 1.0, 1.0
							case A:
								y := ref.(A)
								for j := range x {
									if rr.Intn(3) == 0 {
										x[j], y[j] = "edited", "edited"
									} else {
										edit(x[j], y[j])
									}
								}
							}
						}
						log = append(log, fmt.Sprintf("side %d: edited in place", i))
						edit(*s.GetInsides(), docs[i])
						if arrays[i] {
							if _, ok := docs[i]["array"].(A); !ok {
								delete(docs[i], "array")
								delete(*s.GetInsides(), "array")
								docs[i]["array"], (*s.GetInsides())["array"] = A{}, A{}
							}
						}
					case 3: // a script that changes the document
						if !arrays[i] {
							log = append(log, fmt.Sprintf("side %d: script", i))
							s.MustSet("$.zscript", func(j json_map.JsonMapInt) {
								in := *j.GetInsides()
								for _, v := range in {
									if o, ok := v.(M); ok {
										o["by-script"] = true
									}
								}
								in["by-script"] = A{1.0}
							})
							s.Run()
							scopes[i] = s.GetCurrentScopePath()
							for _, v := range docs[i] {
								if o, ok := v.(M); ok {
									o["by-script"] = true
								}
							}
							docs[i]["by-script"] = A{1.0}
						}
					case 4:
						if g.Intn(2) == 0 {
							s.Strip()
							log = append(log, fmt.Sprintf("side %d: stripped", i))
						} else {
							v := g.anyDoc()
							log = append(log, fmt.Sprintf("side %d: read %s", i, js(v)))
							if err := s.Unmarshal([]byte(js(v))); err != nil {
								t.Fail("read", "%v", err)
							}
							docs[i], arrays[i] = deepCopyV(v).(M), false
						}
					case 5: // nothing to run, but the document gets to know its scope
						s.Run()
						log = append(log, fmt.Sprintf("side %d: run", i))
						scopes[i] = s.GetCurrentScopePath()
					case 6:
						if s.FindScriptFields() {
							t.Fail("found", "scripts were found in side %d", i)
						}
						log = append(log, fmt.Sprintf("side %d: searched for scripts", i))
					}
					ops += fmt.Sprint(op, i, " ")
					t.Count("edits", 1)
					check()
				}
				if ops != "" {
					t.Nontrivial(ops + shapes(root, 2))
				}
			})
			// the clone that is cleared, and clones of documents with scripts
			r.Group("cleared", r.N(800, 10000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}, budget: 8}
				array := g.Intn(2) == 0
				model := g.sobj(3)
				m := jom.NewFromMap(toReal(model, false, nil).(M))
				m.Array = array
				t.Input("%s", js(*m.GetInsides()))
				before := deepCopyV(*m.GetInsides())
				c := m.Clone(true)
				if len(*c.GetInsides()) != 0 || c.IsArray() != array {
					t.Fail("cleared", "the cleared clone has %s, array %v", js(*c.GetInsides()), c.IsArray())
				}
				(*c.GetInsides())["x"] = 1.0
				if err := c.Unmarshal([]byte(`{"y": [1]}`)); err != nil || !same(*c.GetInsides(), M{"y": A{1.0}}) || c.IsArray() {
					t.Fail("cleared-read", "%v %s", err, js(*c.GetInsides()))
				}
				if !same(*m.GetInsides(), before) || m.IsArray() != array {
					t.Fail("cleared-shared", "the original became %s", js(*m.GetInsides()))
				}
				// running the clone leaves the original as it is, scripts included, and the other way round
				m.Array = false
				c1, c2 := m.Clone(false), m.Clone(false)
				stdoutBuf.take()
				if p := caught(c1.Run); p != nil {
					t.Fail("run", "%v", p)
				}
				ev := jsEvents(stdoutBuf.take())
				if !same(*m.GetInsides(), before) || !same(*c2.GetInsides(), before) {
					t.Fail("run-shared", "running a clone changed another side: %s / %s, from %s", js(*m.GetInsides()), js(*c2.GetInsides()), js(before))
				}
				if p := caught(m.Run); p != nil {
					t.Fail("run", "%v", p)
				}
				stdoutBuf.take()
				c2.Strip()
				ref := cloneModel(model).(M)
				modelRun(ref, "$", func(event) {})
				if !same(*m.GetInsides(), *c1.GetInsides()) || !same(*m.GetInsides(), modelStrip(ref)) || !same(*c2.GetInsides(), modelStrip(model)) {
					t.Fail("run-sides", "original %s\nclone %s\nstripped %s", js(*m.GetInsides()), js(*c1.GetInsides()), js(*c2.GetInsides()))
				}
				t.Count("scripts-run", len(ev))
				t.Nontrivial(fmt.Sprint("cleared ", array, len(ev), shapes(before, 2)))
			})
			// a clone made within a script of a scope knows the scope
			r.Group("scope", r.N(300, 3000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				seen := 0
				var want string
				doc, want := g.spot("s", func(j json_map.JsonMapInt) {
					seen++
					c := j.Clone(false)
					if c.GetCurrentScopePath() != j.GetCurrentScopePath() || c.GetCurrentScopePath() != want {
						panic(fmt.Sprintf("the clone is at %q, its original at %q", c.GetCurrentScopePath(), j.GetCurrentScopePath()))
					}
					delete(*c.GetInsides(), "s")
					c.MustSet("$.only-in-clone", 1.0)
					(*c.GetInsides())["also"] = 1.0
					e := j.Clone(true)
					e.MustSet("$.x", 1.0)
				})
				t.Input("%s", want)
				inner := func() interface{} { return withoutFuncs(doc) }
				before := deepCopyV(inner())
				m := jom.NewFromMap(doc)
				if p := caught(m.Run); p != nil {
					t.Fail("scope", "%v", p)
				}
				if seen != 1 || !same(*m.GetInsides(), before) {
					t.Fail("scope-shared", "%d runs, %s, from %s", seen, js(*m.GetInsides()), js(before))
				}
				t.Nontrivial(want + shapes(before, 1))
			})
		},
	})

	register(&Check{
		ID:     "C22",
		Rule:   "a case is a string made by small changes to a script or its first line, placed as the value of an object member at any depth (and, for contrast, in arrays and as a key); finding, stripping, running, evaluating and marking have to agree with the classification by its first line; non-trivial: all, keyed by the first line and place",
		Assume: []string{"first lines of two other characters after the prefix count as a script of an unsupported language, longer and shorter ones as text; the language go within a string, and languages of one character that takes two bytes, are left out"},
		Run: func(r *Runner) {
			classify := func(s string) string {
				first := strings.SplitN(s, "\n", 2)[0]
				switch {
				case first == "#//!js":
					return "script"
				case strings.HasPrefix(first, "#//!") && len(first) == 6:
					return "unsupported"
				}
				return "text"
			}
			alphabet := []string{"#", "/", "!", "j", "s", "J", "S", " ", "\n", "\r", "\t", "x", "p", "y", "r", "b", "1", ".", "-", "\x00", "é", "\ufeff", "go"}
			scripts := []string{"", "json.trail.ran = 1;", "json.trail.ran = 1;\n//#//!js", "// #//!js\njson.trail.ran = 1;\n\n", "json.trail.ran = 1; json.trail.t = '#//!py';"}
			make1 := func(g gen) string {
				first := []byte("#//!js")
				switch g.Intn(4) {
				case 0:
				case 1:
					for k := 1 + g.Intn(2); k > 0; k-- {
						i := g.Intn(len(first) + 1)
						a := alphabet[g.Intn(len(alphabet))]
						switch g.Intn(3) {
						case 0:
							first = append(first[:i:i], append([]byte(a), first[i:]...)...)
						case 1:
							if i < len(first) {
								first = append(first[:i:i], first[i+1:]...)
							}
						case 2:
							if i < len(first) {
								first = append(first[:i:i], append([]byte(a), first[i+1:]...)...)
							}
						}
					}
				case 2:
					first = []byte("#//!" + alphabet[g.Intn(len(alphabet))] + alphabet[g.Intn(len(alphabet))])
				case 3:
					first = []byte([]string{"#//!", "#//!j", "#//!jsx", "#//!js ", " #//!js", "#//!JS", "#//!Js", "#//!py", "#//!rb", "#//!lua", "##//!js", "#/!js", "#!/js", "//!js", "#//js", "#//!sj", "", "text", "#//!js#", "#//!js;", "#//!js//", "\n#//!js", "x\n#//!js"}[g.Intn(23)])
				}
				return string(first) + "\n" + scripts[g.Intn(5)]
			}
			// what follows the first line is run as it is
			r.Group("bodies", r.N(600, 20000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				lead := []string{"", "\n", "\r\n", "\ufeff", " ", "\t\n", "\u00a0", "\u2028", "\v\f"}[g.Intn(9)]
				text, comment := g.spiced(), strings.ReplaceAll(g.spiced(), "*", "")
				if g.Intn(4) == 0 {
					text = g.spiced() + strings.Repeat(g.spiced(), 1+g.Intn(300))
				}
				body := lead + "/*" + comment + " */ json.trail.ran = [" + jsLit(text, '"') + "];" + []string{"", "\n", "\r\n", "//" + strings.Map(func(r rune) rune {
					if strings.ContainsRune("\r\n\u2028\u2029", r) {
						return -1
					}
					return r
				}, g.spiced()), "\n#//!js", "\ufeff"}[g.Intn(6)]
				if g.Intn(10) == 0 {
					body = g.spiced() // it need not be a program
				}
				if strings.HasSuffix(body, "#//!js") {
					body = strings.TrimSuffix(body, "#//!js") + "//#//!js"
				}
				s := "#//!js\n" + body
				t.Input("%q", s)
				c, ok := code.NewFrom(s)
				if !ok || c.Script != body {
					t.Fail("body", "the script is %q, want %q", c.Script, body)
				}
				if strings.Contains(body, "json.trail.ran") {
					doc, _, _ := g.embed(M{"s": s, "v": 1.0})
					out, err := evalSafe(t, []byte(js(doc)))
					if err != nil || !strings.Contains(string(out), js(M{"ran": A{text}, "v": 1.0})) {
						t.Fail("body-run", "evaluated to %s, %v, want ran: %s", out, err, js(text))
					}
				}
				t.Nontrivial(fmt.Sprintf("body %q", clip(s, 100)))
			})
			r.Group("strings", r.N(8000, 150000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				s := make1(g.gen)
				first := strings.SplitN(s, "\n", 2)[0]
				if first == "#//!go" || !validUTF8(s) || len(first) == 6 && len([]rune(first)) != 6 {
					return // see the assumptions
				}
				kind := classify(s)
				if kind == "script" && !inList(scripts, strings.SplitN(s, "\n", 2)[1]) {
					return // a line feed got into the first line, and the rest of it into the body
				}
				doc, scope := g.spot("s", s)
				other := "in array"
				// the same string where no script can be
				elsewhere := g.Intn(3)
				switch elsewhere {
				case 0:
					doc["arr"] = A{s, A{s}}
				case 1:
					doc[s] = 1.0
					other = "as key"
				}
				t.Input("%s", js(doc))
				text := func(v interface{}) interface{} { // the document without the script
					d := deepCopyV(v)
					removeKey(d, "s", s)
					return d
				}
				c, p := code.Code{}, interface{}(nil)
				ok := false
				p = caught(func() { c, ok = code.NewFrom(s) })
				switch kind {
				case "script":
					if p != nil || !ok || c.ScriptLang != code.JS || c.Script != strings.SplitN(s, "\n", 2)[1] {
						t.Fail("classify-script", "%q gave %v, %v, panic %v", s, c, ok, p)
					}
				case "text":
					if p != nil || ok {
						t.Fail("classify-text", "%q gave %v, %v, panic %v", s, c, ok, p)
					}
				case "unsupported":
					if p == nil || !strings.Contains(fmt.Sprint(p), "(-2)") {
						t.Fail("classify-unsupported", "%q gave %v, %v, panic %v", s, c, ok, p)
					}
				}
				m := jm(doc)
				found := false
				p = caught(func() { found = m.FindScriptFields() })
				if (p != nil) != (kind == "unsupported") || p == nil && found != (kind == "script") || !same(*m.GetInsides(), doc) {
					t.Fail("find", "finding scripts gave %v, panic %v, %s", found, p, js(*m.GetInsides()))
				}
				m = jm(doc)
				p = caught(m.Strip)
				want := interface{}(doc)
				if kind == "script" {
					want = text(doc)
				}
				if (p != nil) != (kind == "unsupported") || p == nil && !same(*m.GetInsides(), want) {
					t.Fail("strip", "stripping gave %s, panic %v", js(*m.GetInsides()), p)
				}
				out, err := evalSafe(t, []byte(js(doc)))
				if kind == "unsupported" {
					if err == nil || !strings.Contains(err.Error(), "(-2)") || len(out) != 0 {
						t.Fail("eval-unsupported", "evaluated to %q, %v", out, err)
					}
				} else if err != nil {
					t.Fail("eval", "%v", err)
				} else {
					got := parseJSON(out)
					ran := takeRan(got)
					effect := kind == "script" && strings.Contains(s, "\njson.trail.ran")
					if ran != effect || !same(got, jsonish(want)) {
						t.Fail("eval-result", "ran: %v, evaluated to %s, want %s", ran, js(got), js(want))
					}
				}
				t.Count(kind, 1)
				t.Nontrivial(fmt.Sprintf("%q %s %s", strings.SplitN(s, "\n", 2)[0], scope, other))
			})
			others := []interface{}{nil, true, 5.0, A{"#//!js\nthrow 1"}, A{"#//!py\n"}, A{A{"#//!js\nthrow 1"}}, M{"#//!js": 1.0}, M{}, A{"#//!js", "throw 1"}}
			List(r, "other-values", others, func(t *T, v interface{}) {
				t.Input("%s", js(v))
				m := jm(M{"s": v})
				if m.FindScriptFields() {
					t.Fail("other-found", "taken for a script")
				}
				m.Strip()
				if p := caught(m.Run); p != nil || !same(*m.GetInsides(), M{"s": v}) {
					t.Fail("other", "became %s, %v", js(*m.GetInsides()), p)
				}
				t.Nontrivial(js(v))
			})
		},
	})

	register(&Check{
		ID:   "C24",
		Rule: "a case is a document and a path at which a script is put by marking up; the document has to become what setting the shebang and the script there gives (by the reference), and evaluation then has to run the script in that scope; languages that are not supported and paths that cannot be set are errors; non-trivial: the marking changed the document, keyed by path kinds and number of places",
		Run: func(r *Runner) {
			bodies := []string{"", "json.trail.ran = json.scopePath;", "json.trail.ran = json.scopePath;\n\njson.trail.two = 2;\n", "// nothing", "\njson.trail.ran = json.scopePath;", "json.trail.ran = json.scopePath; /* ☃ 日本 \" ' \\ */", "json.trail.ran = json.scopePath;\r\n", "%d %s;", "#//!js"}
			langs := []string{"", "JS", "Js", "py", "javascript", "j", "s", "js ", " js", "js\n", "jsjs", "lua", "golang", "#//!js", "é", "\x00"}
			r.Group("mark", r.N(6000, 150000), func(t *T) {
				g := gen{t.R, t.R.Intn(4) == 0}
				doc := g.anyDoc()
				p := g.path(doc, 1+g.Intn(4))
				if g.Intn(3) == 0 {
					p = append(p[:len(p)-1:len(p)-1], step{kind: sProp, name: []string{"mk", "script", "a"}[g.Intn(3)]})
				}
				body := bodies[g.Intn(len(bodies))]
				if g.Intn(6) == 0 {
					// the script, or what looks like it, is there already
					full := "#//!js\n" + body
					refSet(doc, p, []interface{}{full, A{full}, A{A{full}}, A{full, full}, M{"a": full}, A{"#//!js"}, "no " + full, A{}}[g.Intn(8)])
				}
				path := p.render()
				ref := deepCopyV(doc).(M)
				werr := refSet(ref, p, "#//!js\n"+body)
				if outside(werr) {
					t.Inconclusive("filter outside the modelled fragment")
					return
				}
				t.Input("%s\n%s : %q", js(doc), path, body)
				m := jm(doc)
				// an unsupported language first: no effect
				if g.Intn(3) == 0 {
					lang := langs[g.Intn(len(langs))]
					if err := m.MarkupCode(path, lang, body); err == nil || !strings.Contains(err.Error(), "(-2)") {
						t.Fail("unsupported", "language %q gave %v", lang, err)
					}
					if !same(*m.GetInsides(), doc) {
						t.Fail("unsupported-changed", "language %q changed the document to %s", lang, js(*m.GetInsides()))
					}
					t.Count("unsupported", 1)
				}
				err := m.MarkupCode(path, "js", body)
				if (err != nil) != (werr != nil) {
					t.Fail("error-mismatch", "got %v, reference %v", err, werr)
				}
				if err != nil {
					t.Count("errors", 1)
					return
				}
				now := *m.GetInsides()
				if !same(now, ref) {
					t.Fail("marked", "got  %s\nwant %s", js(now), js(ref))
				}
				m2 := jm(doc)
				if err := m2.JsonPathSetter(path, "#//!js\n"+body); err != nil || !same(*m2.GetInsides(), now) {
					t.Fail("unlike-set", "setting the same text gave %s, %v", js(*m2.GetInsides()), err)
				}
				t.Count("places", diffCount(doc, ref))
				t.Nontrivial(fmt.Sprintf("%s %d %q", p.kinds(), diffCount(doc, ref), clip(body, 10)))
				if err := m.MarkupCode("no path", "js", body); err == nil {
					t.Fail("bad-path", "a path without $ was accepted")
				}
				if m.Array = g.Intn(9) == 0; m.Array {
					return
				}
				// evaluation runs it where it was put
				if !strings.HasPrefix(body, "json.trail.ran") && body != "\njson.trail.ran = json.scopePath;" || containsText(doc, "#//!lua") {
					return
				}
				expect := deepCopyV(ref).(M)
				runMarks(expect, "$", "#//!js\n"+body)
				if p := caught(m.Run); p != nil {
					t.Fail("run", "%v", p)
				}
				if got := *m.GetInsides(); !same(got, expect) {
					t.Fail("run-result", "got  %s\nwant %s", js(got), js(expect))
				}
				t.Count("evaluated", 1)
			})
		},
	})
}

// runMarks does to a document what evaluation of the given script at every place it was put does.
func runMarks(v interface{}, scope, script string) {
	switch x := v.(type) {
	case M:
		n := 0
		for _, k := range keysOf(x) {
			if x[k] == script {
				delete(x, k)
				n++
			}
		}
		if n > 0 {
			x["ran"] = scope
			if strings.Contains(script, "two") {
				x["two"] = 2.0
			}
		}
		for _, k := range keysOf(x) {
			runMarks(x[k], scope+"."+k, script)
		}
	case A:
		for i, e := range x {
			runMarks(e, fmt.Sprintf("%s.[%d]", scope, i), script)
		}
	}
}

func containsText(v interface{}, sub string) bool {
	return hasString(v, func(s string) bool { return strings.Contains(s, sub) })
}

// hasString says whether a string or key within a value satisfies f.
func hasString(v interface{}, f func(string) bool) bool {
	switch x := v.(type) {
	case string:
		return f(x)
	case M:
		for k, e := range x {
			if f(k) || hasString(e, f) {
				return true
			}
		}
	case A:
		for _, e := range x {
			if hasString(e, f) {
				return true
			}
		}
	}
	return false
}

func shapes(v interface{}, depth int) string {
	switch x := v.(type) {
	case M:
		if depth == 0 {
			return fmt.Sprintf("{%d}", len(x))
		}
		b := "{"
		for _, k := range keysOf(x) {
			b += shapes(x[k], depth-1)
		}
		return b + "}"
	case A:
		if depth == 0 {
			return fmt.Sprintf("[%d]", len(x))
		}
		b := "["
		for _, e := range x {
			b += shapes(e, depth-1)
		}
		return b + "]"
	case string:
		return "s"
	case nil:
		return "0"
	case bool:
		return "b"
	}
	return "n"
}

func isFunc(v interface{}) bool {
	_, ok := v.(func(json_map.JsonMapInt))
	return ok
}

func withoutFuncs(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for k, e := range x {
			if !isFunc(e) {
				m[k] = withoutFuncs(e)
			}
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			if isFunc(e) {
				e = nil
			}
			a = append(a, withoutFuncs(e))
		}
		return a
	}
	return v
}

func countFuncs(v interface{}) (n int) {
	switch x := v.(type) {
	case M:
		for _, e := range x {
			n += countFuncs(e)
		}
	case A:
		for _, e := range x {
			n += countFuncs(e)
		}
	}
	if isFunc(v) {
		n++
	}
	return
}

func removeKey(v interface{}, key, value string) {
	switch x := v.(type) {
	case M:
		if x[key] == value {
			delete(x, key)
		}
		for _, e := range x {
			removeKey(e, key, value)
		}
	case A:
		for _, e := range x {
			removeKey(e, key, value)
		}
	}
}

// takeRan removes what the scripts of C22 leave.
func takeRan(v interface{}) (ran bool) {
	switch x := v.(type) {
	case M:
		if x["ran"] == 1.0 {
			ran = true
			delete(x, "ran")
			if x["t"] == "#//!py" {
				delete(x, "t")
			}
		}
		for _, e := range x {
			ran = takeRan(e) || ran
		}
	case A:
		for _, e := range x {
			ran = takeRan(e) || ran
		}
	}
	return
}

func jsonish(v interface{}) interface{} { return parseJSON([]byte(js(v))) }

func inList(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}
