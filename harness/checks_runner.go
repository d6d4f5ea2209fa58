package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/code"
	gol "github.com/andygello555/json-dom/code/go"
	jsl "github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// withRunners evaluates something with other runners for the languages than their own.
func withRunners(js, goLang func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error), f func()) {
	defer func() {
		code.RegisterLang("js", jsl.RunScript)
		code.RegisterLang("go", gol.RunCallback)
	}()
	if js != nil {
		code.RegisterLang("js", js)
	}
	if goLang != nil {
		code.RegisterLang("go", goLang)
	}
	f()
}

// ownLangs are languages that the check registers itself.
var ownLangs = []string{"zz", "q7", "é", "JS"}

// handed is a script as a runner gets it.
type handed struct{ lang, scope, text, content string }

func (h handed) String() string {
	return fmt.Sprintf("%s script %q in %s, which is %s", h.lang, h.text, h.scope, h.content)
}

// action is what a runner does with a scope; it depends on the script's text and the scope's content only.
type action struct {
	kind  string
	next  M
	err   error
	panic interface{}
}

// scriptText tells the language and text of a script.
func scriptText(v interface{}) (lang, text string, ok bool) {
	switch x := v.(type) {
	case string:
		for _, l := range append([]string{"js", "go"}, ownLangs...) {
			if x == "#//!"+l {
				return l, "", true
			}
			if strings.HasPrefix(x, "#//!"+l+"\n") {
				return l, x[len("#//!"+l+"\n"):], true
			}
		}
	case func(json_map.JsonMapInt):
		return "go", "callback", true
	}
	return
}

// planted gives a script that a runner leaves in a nested object.
func (g gen) runnerScript(failing bool) string {
	text := fmt.Sprint(g.Int63())
	if failing {
		text += " fail"
	}
	switch g.Intn(8) {
	case 4:
		text = g.spiced() + text
	case 5:
		text += g.spiced()
	case 0:
		text += "\nmore\n"
	case 1:
		text = "\n" + text
	case 2:
		text += "\n#//!js\nnot a first line"
	case 3:
		text += "\r\n\t é 😀 "
	}
	return "#//!" + []string{"js", "js", "js", "go", "go", ownLangs[g.Intn(len(ownLangs))]}[g.Intn(6)] + "\n" + text
}

// act makes the changes that a script stands for to a copy of a scope.
func act(text string, key string, scope M) action {
	seed := int64(len(text))
	for _, c := range text {
		seed = seed*131 + int64(c)
	}
	g := gen{newRand(seed), false}
	a := action{next: deepCopyV(scope).(M)}
	if strings.Contains(text, "fail") && g.Intn(2) == 0 {
		if g.Intn(3) == 0 {
			a.kind, a.panic = "panic", fmt.Sprintf("runner gave up %d", seed)
			return a
		}
		a.kind, a.err = "error", fmt.Errorf("runner failed %d", seed)
		return a
	}
	own := func(k string) bool { _, _, ok := scriptText(a.next[k]); return ok }
	for n := g.Intn(4); n > 0; n-- {
		switch g.Intn(7) {
		case 0:
			k := keysV[g.Intn(len(keysV))]
			if !own(k) {
				a.next[k] = g.value(2)
				a.kind += " set"
			}
		case 1:
			// anything can go, a script that has not yet been run included
			ks := keysOf(a.next)
			if len(ks) > 0 {
				delete(a.next, ks[g.Intn(len(ks))])
				a.kind += " delete"
			}
		case 2:
			k := keysV[g.Intn(len(keysV))]
			if !own(k) {
				a.next[k] = M{"deep": g.runnerScript(false), "x": g.value(1)}
				a.kind += " add-scope"
			}
		case 3:
			k := keysV[g.Intn(len(keysV))]
			if !own(k) {
				a.next[k] = A{g.value(1), A{M{"deep": g.runnerScript(false)}}, M{"s": g.runnerScript(false), "t": g.runnerScript(false)}}
				a.kind += " add-list"
			}
		case 4:
			ks := keysOf(a.next)
			if len(ks) > 0 {
				// scripts of this object are still those from before
				a.next[ks[g.Intn(len(ks))]] = float64(g.Intn(100))
				a.kind += " overwrite"
			}
		case 5:
			keep := M{}
			for _, k := range keysOf(a.next) {
				if own(k) && g.Intn(2) == 0 {
					keep[k] = a.next[k]
				}
			}
			keep["only"] = float64(g.Intn(100))
			a.next = keep
			a.kind += " replace"
		case 6:
			// the script that is there is run as it was
			for _, k := range keysOf(a.next) {
				if own(k) && g.Intn(2) == 0 {
					a.next[k] = g.runnerScript(false)
					a.kind += " rewrite"
				}
			}
		}
	}
	_ = key
	return a
}

var keysV = []string{"a", "b", "c", "k", "zz", "A", "0"}

// simulateRunners is what has to happen to a document; it stops at the first failure.
func simulateRunners(v interface{}, scope string, log *[]handed) (interface{}, *action) {
	switch x := v.(type) {
	case M:
		queue := []string{}
		lang, text := map[string]string{}, map[string]string{}
		for _, k := range keysOf(x) {
			if l, s, ok := scriptText(x[k]); ok {
				queue = append(queue, k)
				lang[k], text[k] = l, s
			}
		}
		for _, k := range queue {
			*log = append(*log, handed{lang[k], scope, text[k], goStr(withoutFuncs(x))})
			a := act(text[k], k, x)
			if a.err != nil || a.panic != nil {
				return x, &a
			}
			x = a.next
			delete(x, k)
		}
		for _, k := range keysOf(x) {
			e, failed := simulateRunners(x[k], scope+"."+k, log)
			x[k] = e
			if failed != nil {
				return x, failed
			}
		}
		return x, nil
	case A:
		for i := range x {
			e, failed := simulateRunners(x[i], fmt.Sprintf("%s.[%d]", scope, i), log)
			x[i] = e
			if failed != nil {
				return x, failed
			}
		}
	}
	return v, nil
}

func init() {
	register(&Check{
		ID:     "C31",
		Rule:   "a case is a random document with scripts of both languages and Go callbacks, which monitoring runners registered for the languages are given; what they are handed and the document afterwards are compared with a model of the evaluation; non-trivial: a script was handed to a runner, keyed by the runners' actions, the ways of giving the scope back and the scopes",
		Assume: []string{"scopes of the same object are visited in the order of their keys, as other checks require of the console output"},
		Run: func(r *Runner) {
			r.Group("runners", r.N(3000, 80000), func(t *T) {
				g := gen{t.R, t.R.Intn(3) == 0}
				failing := g.Intn(4) == 0
				array := g.Intn(4) == 0
				var doc interface{} = g.anyDoc()
				if array {
					doc = M{"array": g.arr(3)}
				}
				var objs []M
				var walk func(v interface{}, root bool)
				walk = func(v interface{}, root bool) {
					switch x := v.(type) {
					case M:
						if !root || !array {
							objs = append(objs, x)
						}
						for _, k := range keysOf(x) {
							walk(x[k], false)
						}
					case A:
						for _, e := range x {
							walk(e, false)
						}
					}
				}
				walk(doc, true)
				if len(objs) == 0 {
					return
				}
				callbacks := g.Intn(3) == 0
				for k := 1 + g.Intn(6); k > 0; k-- {
					o := objs[g.Intn(len(objs))]
					if g.Intn(3) == 0 {
						o = objs[0]
					}
					key := []string{"s", "a", "zz", "Sb", "name", "0", "#", "a b", "", "."}[g.Intn(10)]
					if nested(o[key]) {
						continue
					}
					if callbacks && g.Intn(3) == 0 {
						o[key] = func(json_map.JsonMapInt) { panic("a runner should have been given this") }
					} else {
						o[key] = g.runnerScript(failing)
					}
				}
				t.Input("%s", goStr(doc))
				var want []handed
				wantDoc, failed := simulateRunners(deepCopyV(doc), "$", &want)
				// the ways in which a runner gives the scope back
				ways := map[string]int{}
				way := newRand(g.Int63())
				var got []handed
				var bad string
				monitor := func(lang string) func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error) {
					return func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
						text := "callback"
						switch s := c.Script.(type) {
						case string:
							text = s
						case func(json_map.JsonMapInt):
						default:
							bad = fmt.Sprintf("a runner was given a %T", c.Script)
						}
						if c.ScriptLangShebang() != lang {
							bad = fmt.Sprintf("the runner of %s was given a script in %s", lang, c.ScriptLangShebang())
						}
						scope := *j.GetInsides()
						got = append(got, handed{lang, j.GetCurrentScopePath(), text, goStr(withoutFuncs(scope))})
						a := act(text, "", scope)
						if a.panic != nil {
							panic(a.panic)
						}
						w := way.Intn(8)
						ways[fmt.Sprint("way ", w)]++
						if a.err != nil {
							ways["error"]++
							if w < 3 {
								return nil, a.err
							}
							return j, a.err
						}
						switch w {
						case 0, 6, 7: // in the same map
							for _, k := range keysOf(scope) {
								if _, ok := a.next[k]; !ok {
									delete(scope, k)
								}
							}
							for k, v := range a.next {
								scope[k] = v
							}
							if w == 6 { // which is in another object
								return jom.NewFromMap(scope), nil
							}
							if w == 7 {
								c := j.Clone(true)
								*c.GetInsides() = scope
								return c, nil
							}
							return j, nil
						case 1: // another map in the same object
							*j.GetInsides() = a.next
							return j, nil
						case 2: // a clone
							c := j.Clone(false)
							*c.GetInsides() = a.next
							return c, nil
						case 3: // an empty clone that is filled
							c := j.Clone(true)
							for k, v := range a.next {
								(*c.GetInsides())[k] = v
							}
							return c, nil
						case 4:
							return jom.NewFromMap(a.next), nil
						}
						// another document altogether, which has been used before
						n := jom.New()
						n.Unmarshal([]byte(`{"x":{"s":"#//!js\n"},"y":[1]}`))
						n.FindScriptFields()
						*n.GetInsides() = a.next
						return n, nil
					}
				}
				for _, l := range ownLangs {
					code.RegisterLang(l, monitor(l))
				}
				m := jom.NewFromMap(deepCopyV(doc).(M))
				m.Array = array
				compare := func(what string) {
					if bad != "" {
						t.Fail("handed-kind", "%s: %s", what, bad)
					}
					for i := range want {
						if i >= len(got) || got[i] != want[i] {
							has := "nothing"
							if i < len(got) {
								has = got[i].String()
							}
							t.Fail("handed", "%s: number %d handed to a runner is\n%s\nwant\n%s", what, i, has, want[i])
						}
					}
					if len(got) > len(want) {
						t.Fail("handed-more", "%s: also handed to a runner: %s", what, got[len(want)])
					}
				}
				compareFailure := func(what string, p interface{}) {
					if failed == nil {
						if p != nil {
							t.Fail("failure", "%s: failed with %v", what, p)
						}
						return
					}
					if p == nil {
						t.Fail("no-failure", "%s: no failure, want %v %v", what, failed.err, failed.panic)
					}
					msg := fmt.Sprint(failed.panic)
					if failed.err != nil {
						msg = failed.err.Error()
						if e, ok := p.(error); ok && what == "run" && !strings.Contains(e.Error(), msg) {
							t.Fail("failure-other", "%s: failed with %v, want %s", what, p, msg)
						}
					}
					if !strings.Contains(fmt.Sprint(p), msg) {
						t.Fail("failure-other", "%s: failed with %v, want %s", what, p, msg)
					}
				}
				withRunners(monitor("js"), monitor("go"), func() {
					compareFailure("run", caught(m.Run))
				})
				compare("run")
				if failed == nil {
					if now := *m.GetInsides(); goStr(now) != goStr(wantDoc) {
						t.Fail("document", "got  %s\nwant %s", goStr(now), goStr(wantDoc))
					}
					if m.IsArray() != array {
						t.Fail("array", "the document is an array: %v", m.IsArray())
					}
				}
				t.Count("handed", len(got))
				for k, n := range ways {
					t.Count(k, n)
				}
				var scopes []string
				for _, h := range want {
					scopes = append(scopes, h.lang+h.scope)
				}
				if len(want) > 0 {
					kind := ""
					if failed != nil {
						kind = failed.kind
						t.Count("failures", 1)
					}
					t.Nontrivial(clip(fmt.Sprint(scopes, kind, len(ways)), 120))
				}
				if countFuncs(doc) > 0 {
					return
				}
				// in one call
				src := doc
				if array {
					src = doc.(M)["array"]
				}
				got, bad = nil, ""
				var out []byte
				var err error
				withRunners(monitor("js"), monitor("go"), func() {
					out, err = jom.Eval([]byte(js(src)), false)
				})
				if err != nil {
					compareFailure("eval", err)
				} else {
					compareFailure("eval", nil)
				}
				compare("eval")
				if failed == nil {
					res := wantDoc
					if array {
						res = wantDoc.(M)["array"]
					}
					if !same(parseJSON(out), res) {
						t.Fail("eval-document", "got  %s\nwant %s", out, js(res))
					}
				} else if out != nil {
					t.Fail("eval-output", "a failed evaluation gives %s", out)
				}
			})
			// a language of the user's own is one like the others
			r.Group("registered", r.N(400, 8000), func(t *T) {
				g := gen{t.R, t.R.Intn(3) == 0}
				lang := ownLangs[g.Intn(len(ownLangs))]
				other := ownLangs[g.Intn(len(ownLangs))]
				var got []string
				note := func(name string) func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error) {
					return func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
						got = append(got, fmt.Sprintf("%s %s %s %q", name, c.ScriptLangShebang(), j.GetCurrentScopePath(), c.Script))
						return j, nil
					}
				}
				code.RegisterLang(lang, note("first"))
				code.RegisterLang(other, note("other"))
				code.RegisterLang(lang, note("last")) // in place of the first
				for _, l := range append([]string{"js", "go"}, ownLangs...) {
					if !code.CheckIfSupported(l) {
						t.Fail("supported", "%s is not supported", l)
					}
				}
				text := []string{"", "a", "a\nb", "#//!js\nx", "\n\n", "é", g.spiced(), g.spiced()}[g.Intn(8)]
				doc := M{"o": g.obj(2), "l": A{A{M{"k": g.value(1)}}}}
				spot := []string{"$.o.s", "$.l[0][0].s", "$.s", "$.l[0][0].k"}[g.Intn(4)]
				scope := map[string]string{"$.o.s": "$.o", "$.l[0][0].s": "$.l.[0].[0]", "$.s": "$", "$.l[0][0].k": "$.l.[0].[0]"}[spot]
				m := jm(doc)
				want := jm(doc)
				if strings.HasSuffix(spot, ".k") {
					delete((*want.GetInsides())["l"].(A)[0].(A)[0].(M), "k")
				}
				t.Input("%q in %s at %s of %s", text, lang, spot, js(doc))
				if err := m.MarkupCode(spot, lang, text); err != nil {
					t.Fail("registered-markup", "%v", err)
				}
				if g.Intn(2) == 0 {
					// through a text
					out, err := m.Marshal()
					if err != nil {
						t.Fail("registered-marshal", "%v", err)
					}
					m = jom.New()
					if err := m.Unmarshal(out); err != nil {
						t.Fail("registered-unmarshal", "%v", err)
					}
				}
				if got := m.MustGet(spot); len(got) != 1 || got[0] != "#//!"+lang+"\n"+text {
					t.Fail("registered-text", "the script is %q", got)
				}
				c, ok := code.NewFrom("#//!" + lang + "\n" + text)
				if !ok || c.ScriptLangShebang() != lang || c.Script != text || code.ShebangScriptLang(lang) != c.ScriptLang {
					t.Fail("registered-code", "%v: %s %q", ok, c.ScriptLangShebang(), c.Script)
				}
				if !m.Clone(false).FindScriptFields() {
					t.Fail("registered-find", "no scripts were found")
				}
				stripped := m.Clone(false)
				stripped.Strip()
				if !same(*stripped.GetInsides(), *want.GetInsides()) || len(got) > 0 {
					t.Fail("registered-strip", "got %s, runs %v", js(*stripped.GetInsides()), got)
				}
				if p := caught(m.Run); p != nil {
					t.Fail("registered-run", "%v", p)
				}
				if w := fmt.Sprintf("last %s %s %q", lang, scope, text); len(got) != 1 || got[0] != w {
					t.Fail("registered-runs", "got %v, want %s", got, w)
				}
				if !same(*m.GetInsides(), *want.GetInsides()) {
					t.Fail("registered-result", "got %s", js(*m.GetInsides()))
				}
				t.Count("registered", 1)
				t.Nontrivial(fmt.Sprint("registered ", lang, spot, text))
			})
			// runners that do nothing but pass on to the languages' own
			r.Group("passed-on", r.N(500, 12000), func(t *T) {
				g := &sgen{gen: gen{t.R, t.R.Intn(3) == 0}, budget: 10, replace: true}
				model := g.doc()
				goLang := t.R.Intn(2) == 0
				ref := cloneModel(model).(M)
				var want []event
				modelRun(ref, "$", func(e event) { want = append(want, e) })
				var got []event
				real := toReal(model, goLang, func(e event) { got = append(got, e) }).(M)
				t.Input("%s", js(toReal(model, false, nil)))
				m := jom.NewFromMap(real)
				var at []string
				wrap := func(lang string, f func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error)) func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error) {
					return func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
						at = append(at, lang+" "+j.GetCurrentScopePath())
						return f(c, j)
					}
				}
				stdoutBuf.take()
				var p interface{}
				withRunners(wrap("js", jsl.RunScript), wrap("go", gol.RunCallback), func() { p = runDoc(m) })
				if p != nil {
					t.Fail("passed-on-error", "%v", p)
				}
				lang := "go"
				if !goLang {
					lang = "js"
					got = jsEvents(stdoutBuf.take())
				}
				if msg := checkOrder(got, want); msg != "" {
					t.Fail("passed-on-order", "%s\ntrace %v\nmodel %v", msg, got, want)
				}
				if !same(*m.GetInsides(), modelStrip(ref)) {
					t.Fail("passed-on-result", "got  %s\nwant %s", js(*m.GetInsides()), js(ref))
				}
				if len(at) != len(got) {
					t.Fail("passed-on-count", "runners were given %v, scripts ran %v", at, got)
				}
				for i := range got {
					if at[i] != lang+" "+got[i].scope {
						t.Fail("passed-on-scope", "runners were given %v, scripts ran %v", at, got)
					}
				}
				if len(got) > 0 {
					t.Count("passed-on", len(got))
					t.Nontrivial(clip(fmt.Sprint("passed on ", at), 120))
				}
			})
			// one script run directly
			r.Group("direct", r.N(600, 10000), func(t *T) {
				g := gen{t.R, t.R.Intn(2) == 0}
				doc := g.obj(2)
				lang := []string{"js", "go"}[g.Intn(2)]
				other := map[string]string{"js": "go", "go": "js"}[lang]
				src := "#//!" + lang + "\n" + fmt.Sprint(g.value(0))
				t.Input("%q in %s", src, js(doc))
				c, ok := code.NewFrom(src)
				if !ok {
					t.Fail("direct-script", "this is no script")
				}
				m := jom.NewFromMap(deepCopyV(doc).(M))
				ret := jom.NewFromMap(M{"x": 1.0})
				var fail error
				if g.Intn(2) == 0 {
					fail = errors.New("direct failure")
				}
				n := 0
				f := func(c2 code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
					n++
					if c2.Script != c.Script || c2.Script != src[len("#//!js\n"):] || j != json_map.JsonMapInt(m) {
						t.Fail("direct-handed", "given %#v", c2)
					}
					return ret, fail
				}
				wrong := func(c2 code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
					t.Fail("direct-other", "the runner of %s was given %v", other, c2)
					return j, nil
				}
				fs := map[string]func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error){lang: f, other: wrong}
				withRunners(fs["js"], fs["go"], func() {
					data, err := code.Run(c, m)
					if data != json_map.JsonMapInt(ret) || err != fail {
						t.Fail("direct-result", "got %v %v, want %v", data, err, fail)
					}
				})
				if n != 1 {
					t.Fail("direct-count", "given %d times", n)
				}
				if !same(*m.GetInsides(), doc) {
					t.Fail("direct-scope", "the scope is now %s", js(*m.GetInsides()))
				}
				t.Count("direct", 1)
				t.Nontrivial(fmt.Sprint("direct ", lang, fail, clip(shapes(doc, 2), 40)))
			})
		},
	})
}
