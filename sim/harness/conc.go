package main

import (
	"fmt"
	"reflect"
	"strings"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// c10: concurrent use equals sequential use, without data races.
func c10(r *R) {
	r.cap = 400
	genPoolMode(r)
	cfg := genCfg(r)
	if r.OneIn(2) {
		cfg.setIndent, cfg.indent = true, " "
	}
	sh := &sharedObjs{cfg: cfg, col: mkColors(cfg.colors), in: cfg.indenter()}
	// what the goroutines share
	nt := 1 + r.Choose(3)
	var ts []reflect.Type
	for i := 0; i < nt; i++ {
		if r.OneIn(2) {
			ts = append(ts, staticTypes[r.Choose(len(staticTypes))])
		} else {
			ts = append(ts, typeAt(r.Choose(numTypes)))
		}
	}
	var vals []any
	var makes []func() any
	for i, n := 0, 1+r.Choose(3); i < n; i++ {
		g := newEncGen(r)
		g.budget = 14
		g.reenter = r.OneIn(2)
		bad := r.Pick(5, 2, 1)
		g.panics = bad == 2
		makes = append(makes, g.gen(0, bad > 0))
		vals = append(vals, makes[i]())
	}
	type sdoc struct {
		t    reflect.Type
		text []byte
	}
	var docs []sdoc
	for i, n := 0, 1+r.Choose(3); i < n; i++ {
		g := docGen{unknown: true, cb: r.OneIn(3), esc: 3, budget: 12}
		if r.OneIn(3) {
			g.mism = 4
		}
		t, text := genDoc(r, g)
		if r.OneIn(8) {
			text = []byte(malformed[r.Choose(len(malformed))])
		}
		docs = append(docs, sdoc{t, text})
	}
	one := func() *op {
		switch r.Pick(4, 3, 3, 2) {
		case 0:
			return typedOp(r, ts[r.Choose(len(ts))], sh)
		case 1:
			i := r.Choose(len(vals))
			c, col, in := genCfg(r), (*jsoncolor.Colors)(nil), (*jsoncolor.Indenter)(nil)
			if r.OneIn(2) {
				c, col, in = sh.cfg, sh.col, sh.in
			}
			return encodeOp(r, &vals[i], c, col, in, fmt.Sprintf("shared value %d", i))
		case 2:
			i := r.Choose(len(docs))
			return decodeOp(r, docs[i].text, docs[i].t, fmt.Sprintf("shared document %d", i))
		}
		if r.OneIn(4) {
			return &op{name: "DefaultColors", run: func() string { return fmt.Sprintf("%q", *jsoncolor.DefaultColors()) }}
		}
		return scanOp(r, docs[r.Choose(len(docs))].text)
	}
	nTasks := 2 + r.Pick(4, 3, 2, 1)
	same := r.OneIn(3) // everybody does the same: all meet the same first uses
	var lists [][]*op
	var all []*op
	var first []*op
	for i := 0; i < nTasks; i++ {
		var l []*op
		if same && i > 0 {
			l = first
		} else {
			for j, n := 0, 1+r.Choose(4); j < n; j++ {
				o := one()
				l = append(l, o)
				all = append(all, o)
			}
			first = l
		}
		lists = append(lists, l)
	}
	for _, o := range all {
		o.want = o.alone()
	}
	// Everything shared is as if it had never been used.
	for i := range vals {
		vals[i] = makes[i]()
	}
	for _, o := range all {
		if o.fresh != nil {
			o.fresh()
		}
	}
	if sh.col != nil {
		*sh.col = *mkColors(cfg.colors)
	}
	if sh.in != nil {
		*sh.in = *cfg.indenter()
	}
	simrt.Reset()
	type result struct {
		o   *op
		got string
	}
	got := make([][]result, nTasks)
	var fns []func()
	for i := range lists {
		l := lists[i]
		res := make([]result, len(l))
		got[i] = res
		fns = append(fns, func() {
			for j, o := range l {
				res[j] = result{o, o.guardedRun()}
			}
		})
	}
	pol := r.Policy()
	if dead := r.RunTasks(pol, fns...); dead {
		r.Fail("deadlock", "goroutines using the package wait for each other for ever")
	}
	r.nontrivial = simrt.Switches > int64(nTasks)
	var names []string
	for i := range got {
		for _, x := range got[i] {
			simrt.NoteBytes([]byte(x.got))
			names = append(names, fmt.Sprintf("%d:%s", i, short(x.o.name, 100)))
			r.Trace("goroutine %d: %s -> %s", i, x.o.name, short(x.got, 300))
		}
	}
	r.Sample("%d switches, policy %v; %s", simrt.Switches, pol, strings.Join(names, "; "))
	for i := range got {
		for _, x := range got[i] {
			if !x.o.same(x.got, x.o.want) {
				r.Fail("concurrent", "goroutine %d: %s: alone: %s; concurrently: %s", i, short(x.o.name, 500), short(x.o.want, 800), short(x.got, 800))
			}
		}
	}
}

func init() {
	register(&Scenario{ID: "C10", Run: c10, Quick: 50_000, Thorough: 1_600_000, Race: true,
		Real: []string{"all of jsoncolor (instrumented real code) under the race detector"},
		Stub: []string{"the Go scheduler: goroutines are tasks switched before statements by the tape; the hand-over is invisible to the race detector", "package sync (pools, locks) with the happens-before edges of the real one"},
		Rule: "one run = 2-5 goroutines with 1-4 calls each over every entry point, sharing types not yet met, values, input bytes, Colors and an Indenter, from an empty codec cache, under one of seven preemption policies; each result compared with the same call made alone; non-trivial: goroutines were switched inside calls; distinct by event log"})
}
