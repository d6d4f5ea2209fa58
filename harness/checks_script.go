package main

import (
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/jom"
)

func init() {
	mk := func(id string, iso bool) {
		c := &Check{ID: id}
		run := func(t *T, g *sgen, model M, goLang bool) {
			ref := cloneModel(model).(M)
			var want []event
			modelRun(ref, "$", func(e event) { want = append(want, e) })
			var got []event
			var m *jom.JsonMap
			if goLang {
				t.Input("Go callbacks in %s", js(modelStrip(model)))
				m = jom.NewFromMap(toReal(model, true, func(e event) { got = append(got, e) }).(M))
			} else {
				real := toReal(model, false, nil).(M)
				src := js(real)
				t.Input("%s", src)
				m = jom.New()
				if err := m.Unmarshal([]byte(src)); err != nil {
					t.Fail("unmarshal", "%v", err)
				}
			}
			stdoutBuf.take()
			if p := runDoc(m); p != nil {
				t.Fail("run-error", "evaluation failed: %v", p)
			}
			out := stdoutBuf.take()
			if !goLang {
				got = jsEvents(out)
				if n := strings.Count(out, "EV:"); n != len(got) {
					t.Fail("events-unreadable", "%d events, %d of them readable: %s", n, len(got), out)
				}
			}
			if iso {
				// where each script ran, and what it could reach
				if msg := checkOrder(got, want); msg != "" {
					t.Fail("scope", "%s\ntrace %v\nmodel %v", msg, got, want)
				}
			} else if msg := checkOrder(got, want); msg != "" {
				t.Fail("order", "%s\ntrace %v\nmodel %v", msg, got, want)
			}
			now := *m.GetInsides()
			if !same(now, modelStrip(ref)) {
				t.Fail("result", "got  %s\nwant %s", js(now), js(ref))
			}
			if m.FindScriptFields() {
				t.Fail("scripts-left", "there are scripts left: %s", js(now))
			}
			t.Count("scripts-run", len(got))
			levels := map[string]int{}
			for _, e := range got {
				levels[e.scope]++
			}
			if len(got) > 0 {
				var sh []string
				for _, e := range got {
					sh = append(sh, e.scope)
				}
				t.Nontrivial(fmt.Sprintf("%v %s", goLang, strings.Join(sh, " ")))
			}
			t.Count("scopes", len(levels))
			// running it again does nothing
			got = nil
			if p := runDoc(m); p != nil {
				t.Fail("rerun-error", "%v", p)
			}
			if len(got) > 0 || strings.Contains(stdoutBuf.take(), "EV:") {
				t.Fail("rerun", "scripts ran again on a second evaluation")
			}
			if !same(*m.GetInsides(), modelStrip(ref)) {
				t.Fail("rerun-result", "a second evaluation changed the document to %s", js(*m.GetInsides()))
			}
		}
		c.Run = func(r *Runner) {
			r.Group("js", r.N(1600, 40000), func(t *T) {
				g := &sgen{gen: gen{t.R, t.R.Intn(3) == 0}, budget: 12, pollute: iso, replace: iso}
				model := g.doc()
				if iso {
					addProbes(model)
				}
				run(t, g, model, false)
			})
			r.Group("go", r.N(3000, 60000), func(t *T) {
				g := &sgen{gen: gen{t.R, t.R.Intn(3) == 0}, budget: 14, replace: iso}
				model := g.doc()
				run(t, g, model, true)
			})
			r.Group("many-on-a-level", r.N(150, 3000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}, budget: 100}
				inner := M{}
				for k := 0; k < 6+g.Intn(20); k++ {
					g.nextID++
					key := fmt.Sprintf("%s%d", []string{"s", "S", "_", "k-", "é"}[g.Intn(5)], g.Intn(120))
					inner[key] = &scriptV{id: fmt.Sprintf("s%d", g.nextID), effects: []effect{{"set", "last", key}}}
				}
				model := inner
				if g.Intn(2) == 0 {
					model = M{"x": A{A{1.0, inner}, M{"y": 2.0}}}
				}
				run(t, g, model, g.Intn(2) == 0)
			})
			// documents that are far deeper or wider, and scripts at their far ends
			r.Group("big", r.N(120, 2500), func(t *T) {
				g := &sgen{gen: gen{t.R, false}, budget: 6, replace: iso}
				run(t, g, g.bigDoc(), g.Intn(2) == 0)
			})
			if !iso {
				r.Group("array-root", r.N(150, 3000), func(t *T) {
					g := &sgen{gen: gen{t.R, false}, budget: 10}
					arr := g.sarr(3)
					ref := M{"array": cloneModel(arr)}
					var want []event
					modelRun(ref, "$", func(e event) { want = append(want, e) })
					src := js(toReal(arr, false, nil))
					t.Input("%s", src)
					stdoutBuf.take()
					out, err := jom.Eval([]byte(src), false)
					if err != nil {
						t.Fail("array-root-error", "%v", err)
					}
					got := jsEvents(stdoutBuf.take())
					if msg := checkOrder(got, want); msg != "" {
						t.Fail("array-root-order", "%s\ntrace %v\nmodel %v", msg, got, want)
					}
					if !same(parseJSON(out), modelStrip(ref["array"])) {
						t.Fail("array-root-result", "got %s\nwant %s", out, js(modelStrip(ref["array"])))
					}
					if len(got) > 0 {
						t.Nontrivial(fmt.Sprint("array-root ", got))
					}
				})
			}
		}
		if iso {
			c.Rule = "a case is a random document with scripts (JavaScript or Go callbacks) that replace their whole scope, rewrite builtins, leak globals and probe for what other scripts did, and record where they ran; non-trivial: at least one script ran, keyed by the scopes visited in order"
		} else {
			c.Rule = "a case is a random document with up to 14 scripts (JavaScript or Go callbacks) in nested objects and arrays, decoy strings, scripts that add and delete other scopes; the trace of executions is checked against a model for exactly-once, order and the final document; non-trivial: at least one script ran, keyed by the scopes visited in order"
			c.Assume = []string{"the order in which sibling scopes are visited is left open by the documentation, so it is not checked"}
		}
		register(c)
	}
	mk("C09", false)
	mk("C10", true)
}

// addProbes makes every script look for traces of the others.
func addProbes(v interface{}) {
	switch x := v.(type) {
	case *scriptV:
		if !strings.HasPrefix(x.extra, "if (typeof leak") {
			x.extra = cleanProbe + x.extra
			for i := range x.effects {
				addProbes(x.effects[i].value)
			}
		}
	case M:
		for _, k := range keysOf(x) {
			addProbes(x[k])
		}
	case A:
		for _, e := range x {
			addProbes(e)
		}
	}
}
