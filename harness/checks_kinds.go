package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

var codeRe = regexp.MustCompile(`\(-\d+\)`)

// kindOf gives the code that an error's text begins with, or the first one in it.
func kindOf(text string) string { return codeRe.FindString(text) }

// pathPrefix is what stands before the reasons of a path that was refused.
var pathPrefix = strings.TrimSuffix(globals.JsonPathError.FillError("#").Error(), "#")

// brokenPath makes a path that often cannot be followed: several indices, some of them outside the array, missing keys.
func (g gen) brokenPath(doc M) pathT {
	p := g.path(doc, 1+g.Intn(4))
	for i := range p {
		if g.Intn(4) > 0 {
			continue
		}
		switch p[i].kind {
		case sIndex, sIndices:
			p[i].kind = sIndices
			p[i].idx = nil
			for k := 1 + g.Intn(4); k > 0; k-- {
				p[i].idx = append(p[i].idx, []int{0, 1, 2, 7, 9, 12}[g.Intn(6)])
			}
			if len(p[i].idx) == 1 {
				p[i].kind = sIndex
			}
		case sProp:
			p[i].name = []string{"missing", "a", "b", "zz"}[g.Intn(4)]
		}
	}
	if g.Intn(3) == 0 {
		p = append(p, step{kind: sProp, name: "missing"})
	}
	return p
}

func init() {
	register(&Check{
		ID:     "C32",
		Rule:   "a case is a path on a random document of which some alternatives cannot be followed, used by gets, sets, the panicking variants, absolute paths and a selection within a script; or something that fails within an evaluation (scripts, languages, limits, callbacks); the monitor checks the code that the error's text begins with and that the reasons are those that the parts give on their own; non-trivial: an error was reported, keyed by kind, number of reasons and the shape of the path",
		Assume: []string{"an error's kind is the negative number in brackets that its text begins with (globals.RuntimeError); the wording of single reasons is left open"},
		Run: func(r *Runner) {
			r.Group("paths", r.N(9000, 150000), func(t *T) {
				g := gen{t.R, false}
				doc := g.anyDoc()
				path := g.brokenPath(doc).render()
				if g.Intn(12) == 0 {
					path = []string{"", "$$", "a", "$.", "$.a.[", "$[", "$.a[:]", "$.a[0,]", "$.1", "$.a b", "$...", "$.a[1:2:3]", "$ .a", "$.a[99999999999999999999]", "$.a[0,99999999999999999999]", "$.a[:99999999999999999999]"}[g.Intn(16)]
				}
				t.Input("doc=%s path=%s", js(doc), path)
				m := jm(doc)
				_, err := m.JsonPathSelector(path)
				keys, perr := json_map.ParseJsonPath(path)
				if perr != nil {
					if err == nil || err.Error() != perr.Error() {
						t.Fail("parse-text", "parsing fails with %v, selecting with %v", perr, err)
					}
					serr := m.JsonPathSetter(path, 1.0)
					if serr == nil || serr.Error() != perr.Error() {
						t.Fail("parse-text-set", "parsing fails with %v, setting with %v", perr, serr)
					}
					if kindOf(perr.Error()) != "(-6)" || !strings.HasPrefix(perr.Error(), "(-6)") {
						t.Fail("parse-kind", "%v", perr)
					}
					t.Nontrivial("parse " + path)
				} else {
					// the paths one by one
					var reasons []string
					for i := range keys {
						one := json_map.AbsolutePaths{keys[i]}
						vals, errs := m.GetAbsolutePaths(&one)
						if len(errs) > 1 || len(errs) > 0 && len(vals) > 0 {
							t.Fail("one-path", "one path gives %d errors and %d values", len(errs), len(vals))
						}
						if len(errs) == 1 {
							if !strings.HasPrefix(errs[0].Error(), pathPrefix) {
								t.Fail("kind", "the error of %v is %v", keys[i], errs[0])
							}
							reasons = append(reasons, errs[0].Error())
						}
					}
					_, errs := m.GetAbsolutePaths(&keys)
					var got []string
					for _, e := range errs {
						got = append(got, e.Error())
					}
					if !same(got, reasons) {
						t.Fail("reasons", "together the paths give %q, one by one %q", got, reasons)
					}
					if (err != nil) != (len(reasons) > 0) {
						t.Fail("error", "got %v; the paths one by one give %q", err, reasons)
					}
					if err != nil {
						for i := range reasons {
							reasons[i] = strings.Replace(reasons[i], pathPrefix, "", -1)
						}
						if want := pathPrefix + strings.Join(reasons, ", "); err.Error() != want {
							t.Fail("text", "the error is %q, want %q", err, want)
						}
						t.Count("reasons", len(reasons))
						t.Nontrivial(fmt.Sprint("path ", len(reasons), len(keys), clip(path, 30)))
					}
				}
				if err == nil {
					return
				}
				// the panicking variants
				for name, f := range map[string]func(){"MustGet": func() { jm(doc).MustGet(path) }, "MustPush": func() { jm(doc).MustPush(path, 1.0) }, "MustPop": func() { jm(doc).MustPop(path) }} {
					p := caught(f)
					e, ok := p.(error)
					if name == "MustGet" && (!ok || e.Error() != err.Error()) {
						t.Fail("must-get", "MustGet panics with %v, want %v", p, err)
					}
					if !ok || !strings.HasPrefix(e.Error(), "(-6)") {
						t.Fail("must-kind", "%s panics with %v", name, p)
					}
				}
				for _, v := range []interface{}{"v", nil} {
					serr := jm(doc).JsonPathSetter(path, v)
					if serr != nil && !strings.HasPrefix(serr.Error(), "(-6)") && !strings.Contains(serr.Error(), "root") {
						t.Fail("set-kind", "setting %v: %v", v, serr)
					}
					p := caught(func() {
						if v == nil {
							jm(doc).MustDelete(path)
						} else {
							jm(doc).MustSet(path, v)
						}
					})
					if fmt.Sprint(p) != fmt.Sprint(error(serr)) {
						t.Fail("must-set", "setting %v panics with %v, want %v", v, p, serr)
					}
				}
				if merr := jm(doc).MarkupCode(path, "js", "1"); perr != nil && (merr == nil || merr.Error() != perr.Error()) {
					t.Fail("markup-text", "marking up gives %v, want %v", merr, perr)
				}
				// within a script
				if g.Intn(3) > 0 || strings.Contains(err.Error(), "-0") {
					return
				}
				what := []string{".getValues()", ".setValues('v')"}[g.Intn(2)]
				script := "#//!js\nvar seen; try { json.jsonPathSelector(" + jsLit(path, '"') + ")" + what + "; seen = 'no error'; } catch (e) { seen = e.name + ' ' + e.message; }\nthrow '<<' + seen + '>>';"
				in := deepCopyV(doc).(M)
				if _, ok := in["~"]; ok {
					return
				}
				in["~"] = script
				native := jm(in)
				if what == ".getValues()" {
					_, err = native.JsonPathSelector(path)
				} else {
					err = native.JsonPathSetter(path, "v")
				}
				want := "no error"
				if err != nil {
					want = "JSONPathError " + err.Error()
				}
				_, eerr := evalSafe(t, []byte(js(in)))
				if eerr == nil || !strings.Contains(eerr.Error(), "<<"+want+">>") {
					t.Fail("in-script", "outside %q, within a script: %v", want, eerr)
				}
				t.Count("in-scripts", 1)
			})
			r.Group("several", r.N(3000, 50000), func(t *T) {
				g := gen{t.R, false}
				doc := g.anyDoc()
				m := jm(doc)
				var all json_map.AbsolutePaths
				var want []string
				log := ""
				for k := 1 + g.Intn(5); k > 0; k-- {
					path := g.brokenPath(doc).render()
					keys, err := json_map.ParseJsonPath(path)
					if err != nil {
						t.Fail("several-parse", "%s: %v", path, err)
					}
					log += path + "\n"
					_, errs := m.GetAbsolutePaths(&keys)
					for _, e := range errs {
						want = append(want, e.Error())
					}
					all = append(all, keys...)
				}
				t.Input("doc=%s paths\n%s", js(doc), log)
				for try := 0; try < 2; try++ {
					vals, errs := m.GetAbsolutePaths(&all)
					var got []string
					for _, e := range errs {
						got = append(got, e.Error())
					}
					if !same(got, want) || len(errs) > 0 && len(vals) > 0 {
						t.Fail("several", "together %q (%d values), one by one %q", got, len(vals), want)
					}
				}
				if len(want) > 1 {
					t.Count("reasons", len(want))
					t.Nontrivial(fmt.Sprint("several ", len(want), len(all), clip(log, 30)))
				}
			})
			r.Group("scripts", r.N(1500, 20000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				var doc M
				want := "(-5)"
				has := ""
				switch g.Intn(5) {
				case 0: // its own text says something else
					text := []string{"(-1)", "(-2) Unsupported script language in shebang", "(-6)", "(-4)", "halting", globals.HaltingProblem.FillError("1s").Error()}[g.Intn(6)]
					has = text
					doc, _ = g.spot("s", "#//!js\n"+[]string{"throw " + jsLit(text, '"') + ";", "throw new Error(" + jsLit(text, '"') + ");", "throw {toString: function() { return " + jsLit(text, '"') + "; }};"}[g.Intn(3)])
				case 1:
					lang := []string{"py", "rb", "Js", "jS", "x ", "ts", "??", "GO", "ç"}[g.Intn(9)]
					want, has = "(-2)", lang
					doc, _ = g.spot("s", "#//!"+lang+"\n"+errorScripts[g.Intn(len(errorScripts))])
				default:
					doc, _ = g.spot("s", "#//!js\n"+errorScripts[g.Intn(len(errorScripts))])
				}
				t.Input("%s", js(doc))
				_, err := evalSafe(t, []byte(js(doc)))
				if err == nil {
					t.Fail("no-error", "evaluated without an error")
				}
				if kindOf(err.Error()) != want || !strings.Contains(err.Error(), has) {
					t.Fail("script-kind", "want %s and %q: %v", want, has, err)
				}
				if p := caught(jm(doc).Run); kindOf(fmt.Sprint(p)) != want {
					t.Fail("script-kind-run", "want %s, got %v", want, p)
				}
				t.Count("scripts", 1)
				t.Nontrivial(fmt.Sprint("script ", want, has, shapes(doc, 2), clip(err.Error(), 90)))
			})
			r.Group("languages", r.N(300, 4000), func(t *T) {
				g := gen{t.R, false}
				doc := g.anyDoc()
				lang := []string{"py", "rb", "Js", "", "j", "jss", "javascript", " js", "js ", "js\n", "GO", "%s", "日本"}[g.Intn(13)]
				path := g.brokenPath(doc).render()
				t.Input("marking up %s in %q: %s", path, lang, js(doc))
				m := jm(doc)
				err := m.MarkupCode(path, lang, "1")
				if err == nil || !strings.HasPrefix(err.Error(), "(-2)") || !strings.Contains(err.Error(), lang) {
					t.Fail("markup-kind", "got %v", err)
				}
				if !same(*m.GetInsides(), doc) {
					t.Fail("markup-changed", "the document is %s", js(*m.GetInsides()))
				}
				t.Nontrivial("language " + lang + clip(path, 10))
			})
			// what a callback lets through says what it did before
			r.Group("callbacks", r.N(600, 8000), func(t *T) {
				g := gen{t.R, false}
				doc := g.obj(2)
				delete(doc, "cb")
				path := g.brokenPath(doc).render()
				kind := g.Intn(5)
				calls := []func(j json_map.JsonMapInt){
					func(j json_map.JsonMapInt) { j.MustGet(path) },
					func(j json_map.JsonMapInt) { j.MustSet(path, 1.0) },
					func(j json_map.JsonMapInt) {
						if err := j.JsonPathSetter(path, nil); err != nil {
							panic(err)
						}
					},
					func(j json_map.JsonMapInt) {
						if err := j.MarkupCode("$.x", "py", ""); err != nil {
							panic(err)
						}
					},
					func(j json_map.JsonMapInt) { j.MustPop(path) },
				}
				t.Input("call %d, path %s in %s", kind, path, js(doc))
				alone := caught(func() { calls[kind](jm(doc)) })
				in := deepCopyV(doc).(M)
				in["cb"] = func(j json_map.JsonMapInt) { delete(*j.GetInsides(), "cb"); calls[kind](j) }
				var p interface{}
				if g.Intn(2) == 0 {
					p = caught(jom.NewFromMap(in).Run)
				} else {
					p = caught(jom.NewFromMap(M{"l": A{1.0, A{in}}}).Run)
				}
				if fmt.Sprint(p) != fmt.Sprint(alone) {
					t.Fail("callback", "on its own the call panics with %v, within an evaluation it ends with %v", alone, p)
				}
				if p != nil {
					t.Nontrivial(fmt.Sprint("callback ", kind, clip(path, 20)))
				}
			})
			afterRe := regexp.MustCompile(`\(-1\) .*?: ([0-9.]+(s|ms|m|µs)+)`)
			stop := make(chan struct{})
			stopped := []struct {
				name string
				min  time.Duration
				f    func() interface{}
			}{
				{"script", time.Second, func() interface{} { return caught(jm(M{"s": "#//!js\nfor (;;) {}"}).Run) }},
				{"script that catches", time.Second, func() interface{} {
					return caught(jm(M{"l": A{M{"s": "#//!js\ntry { for (;;) {} } catch (e) { throw '(-5)'; }"}}}).Run)
				}},
				{"eval", time.Second, func() interface{} { _, err := jom.Eval([]byte(`{"s": "#//!js\nwhile (true) {}"}`), false); return err }},
				{"callback", time.Second, func() interface{} {
					return caught(jom.NewFromMap(M{"o": M{"s": func(json_map.JsonMapInt) { <-stop }}}).Run)
				}},
				{"filter", time.Second, func() interface{} {
					_, err := jm(M{"l": A{1.0}}).JsonPathSelector("$.l[?((function() { for (;;) {} })())]")
					return err
				}},
				{"filter of a set", time.Second, func() interface{} {
					return error(jm(M{"l": A{1.0}}).JsonPathSetter("$.l[?((function() { for (;;) {} })())]", 1.0))
				}},
				{"second script", time.Second, func() interface{} {
					return caught(jm(M{"a": "#//!js\n1", "b": "#//!js\ndo {} while (true)"}).Run)
				}},
			}
			List(r, "stopped", stopped, func(t *T, c struct {
				name string
				min  time.Duration
				f    func() interface{}
			}) {
				t.Input("%s", c.name)
				before := globals.HaltingDelay
				globals.HaltingDelay = 1
				defer func() { globals.HaltingDelay = before }()
				start := time.Now()
				p := c.f()
				took := time.Since(start)
				text := fmt.Sprint(p)
				want := "(-1)"
				if strings.HasPrefix(c.name, "filter") {
					want = "(-6)" // a path that could not be followed, because of
				}
				m := afterRe.FindStringSubmatch(text)
				if p == nil || kindOf(text) != want || m == nil {
					t.Fail("stopped-kind", "want %s: %v", want, p)
				}
				if d, err := time.ParseDuration(m[1]); err != nil || d < c.min || d > took+time.Millisecond {
					t.Fail("stopped-after", "it took %v, the error says %v (%v)", took, d, err)
				}
				t.Count("stopped", 1)
				t.Nontrivial("stopped " + c.name)
			})
			close(stop)
		},
	})
}
