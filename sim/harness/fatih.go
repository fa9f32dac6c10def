package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/fatih/color"
	jsoncolor "github.com/neilotoole/jsoncolor"
	"github.com/neilotoole/jsoncolor/helper/fatihcolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// fcol is a fatih/color object with what it is known to render.
type fcol struct {
	c    *color.Color
	want string // expected colour bytes; "?" if they are not known
	what string
	ss   []string // attributes
}

var fattrs = []color.Attribute{color.FgGreen, color.Bold, color.FgHiRed, color.Faint, color.BgBlue, color.Underline, color.FgCyan, color.Italic, color.FgYellow, color.BgHiWhite}

// add gives the colour one more attribute.
func (f *fcol) add(a color.Attribute) {
	f.c.Add(a)
	f.ss = append(f.ss, fmt.Sprint(int(a)))
	f.want = "\x1b[" + strings.Join(f.ss, ";") + "m"
	f.what += fmt.Sprintf("+%d", a)
}

func genFcol(r *R) *fcol {
	if r.OneIn(8) {
		return &fcol{what: "nil"}
	}
	attrs := fattrs
	var as []color.Attribute
	var ss []string
	for i, n := 0, r.Pick(1, 5, 3, 1); i < n; i++ {
		a := attrs[r.Choose(len(attrs))]
		as = append(as, a)
		ss = append(ss, fmt.Sprint(int(a)))
	}
	f := &fcol{want: "\x1b[" + strings.Join(ss, ";") + "m", ss: ss}
	if len(as) == 0 {
		f.want = "?"
	}
	f.what = "color" + fmt.Sprint(ss)
	if r.OneIn(3) && len(as) > 1 {
		f.c = color.New(as[:1]...).Add(as[1:]...)
	} else {
		f.c = color.New(as...)
	}
	switch r.Choose(4) {
	case 1:
		f.c.EnableColor()
		f.what += "+enabled"
	case 2:
		f.c.DisableColor()
		f.what += "+disabled"
	}
	return f
}

// render shows how the object itself behaves.
func (f *fcol) render() string {
	if f.c == nil {
		return "nil"
	}
	save := color.NoColor
	s := ""
	for _, v := range []bool{false, true} {
		color.NoColor = v
		s += fmt.Sprintf("%q|", f.c.Sprint("text"))
	}
	color.NoColor = save
	return s
}

// c18: conversion of fatih/color settings.
func c18(r *R) {
	saved := color.NoColor
	r.Defer(func() { color.NoColor = saved })
	color.NoColor = r.Choose(2) == 0
	var cs []*fcol
	for i, n := 0, 1+r.Choose(6); i < n; i++ {
		cs = append(cs, genFcol(r))
	}
	pick := func() *fcol { return cs[r.Choose(len(cs))] }
	type cset struct {
		set  *fatihcolor.Colors
		srcs [9]*fcol
		at   [9]**color.Color
	}
	none := &fcol{what: "nil"}
	var sets []*cset
	for i, n := 0, 1+r.Choose(2); i < n; i++ {
		s := &cset{}
		for j := range s.srcs {
			s.srcs[j] = none
			if !r.OneIn(4) {
				s.srcs[j] = pick()
			}
		}
		s.set = &fatihcolor.Colors{Bool: s.srcs[0].c, Bytes: s.srcs[1].c, Datetime: s.srcs[2].c, Null: s.srcs[3].c, Number: s.srcs[4].c,
			String: s.srcs[5].c, Key: s.srcs[6].c, Punc: s.srcs[7].c, TextMarshaler: s.srcs[8].c}
		s.at = [9]**color.Color{&s.set.Bool, &s.set.Bytes, &s.set.Datetime, &s.set.Null, &s.set.Number, &s.set.String, &s.set.Key, &s.set.Punc, &s.set.TextMarshaler}
		sets = append(sets, s)
	}
	// conversions made first, in calm
	color.NoColor = false
	simrt.Reset()
	for _, f := range append(cs, none) {
		got := string(fatihcolor.ToCoreColor(f.c))
		if f.want == "?" {
			f.want = got
		} else if got != f.want {
			r.Fail("bytes", "ToCoreColor(%s) = %q, want %q", f.what, got, f.want)
		}
	}
	before := make([]string, len(cs))
	for i, f := range cs {
		before[i] = f.render()
	}
	simrt.Reset()
	color.NoColor = r.Choose(2) == 0
	type result struct {
		b    jsoncolor.Color
		want string
		what string
		bad  bool // overwritten by the caller
	}
	check := func(res []*result, when string) {
		for _, x := range res {
			if !x.bad && string(x.b) != x.want {
				r.Fail("bytes", "%s: %s converted to %q, want %q", when, x.what, x.b, x.want)
			}
		}
	}
	convert := func(res *[]*result, s *cset, f *fcol) {
		if s == nil {
			*res = append(*res, &result{fatihcolor.ToCoreColor(f.c), f.want, f.what, false})
			return
		}
		c := fatihcolor.ToCoreColors(s.set)
		if c == nil {
			r.Fail("nil", "a set converted to nil")
		}
		for j, b := range []jsoncolor.Color{c.Bool, c.Bytes, c.Time, c.Null, c.Number, c.String, c.Key, c.Punc, c.TextMarshaler} {
			*res = append(*res, &result{b, s.srcs[j].want, fmt.Sprintf("field %d of a set, %s", j, s.srcs[j].what), false})
		}
		for _, b := range []jsoncolor.Color{c.Brackets, c.Braces, c.Comma, c.Colon} {
			*res = append(*res, &result{b, "", "punctuation the set does not have", false})
		}
	}
	hist := ""
	var res []*result
	seq := func(n int) {
		for i := 0; i < n; i++ {
			switch r.Pick(3, 3, 2, 2, 1, 1, 2, 1) {
			case 6: // the settings of a colour are changed by their owner
				j := r.Choose(len(cs))
				f := cs[j]
				if f.c == nil {
					break
				}
				switch r.Choose(4) {
				case 0:
					f.c.EnableColor()
				case 1:
					f.c.DisableColor()
				default:
					f.add(fattrs[r.Choose(len(fattrs))])
				}
				before[j] = f.render()
				hist += f.what + " changed; "
				r.Count("fault.colour_changed")
				r.nontrivial = true
			case 7: // another colour is put in a set
				s := sets[r.Choose(len(sets))]
				j := r.Choose(len(s.srcs))
				s.srcs[j] = none
				if !r.OneIn(4) {
					s.srcs[j] = pick()
				}
				*s.at[j] = s.srcs[j].c
				hist += fmt.Sprintf("field %d of a set replaced; ", j)
				r.Count("fault.set_changed")
				r.nontrivial = true
			case 0:
				f := pick()
				convert(&res, nil, f)
				hist += "convert " + f.what + "; "
			case 1:
				convert(&res, sets[r.Choose(len(sets))], nil)
				hist += "convert a set; "
			case 2:
				color.NoColor = !color.NoColor
				hist += fmt.Sprintf("NoColor=%v; ", color.NoColor)
				r.Count("fault.nocolor_switched")
				r.nontrivial = true
			case 3: // a result is overwritten, including its spare capacity
				if len(res) > 0 {
					x := res[r.Choose(len(res))]
					b := x.b[:cap(x.b)]
					for j := range b {
						b[j] = 0xEE
					}
					x.bad = true
					hist += "a result overwritten; "
					r.Count("fault.result_overwritten")
					r.nontrivial = true
				}
			case 4:
				if fatihcolor.ToCoreColors(nil) != nil {
					r.Fail("nil", "a nil set converts to a set")
				}
			case 5: // used by an encoder
				if len(res) > 0 {
					x := res[r.Choose(len(res))]
					if b, err := jsoncolor.Append(nil, 1, 0, &jsoncolor.Colors{Number: x.b}, nil); err != nil || !bytes.Contains(b, []byte("1")) {
						r.Fail("unusable", "encoding with a converted colour: %q %v", b, err)
					}
				}
			}
			check(res, "after "+hist)
		}
	}
	seq(r.Choose(8))
	if r.OneIn(2) {
		// concurrently
		nT := 2 + r.Choose(3)
		all := make([][]*result, nT)
		var fns []func()
		for i := 0; i < nT; i++ {
			type job struct {
				s *cset
				f *fcol
			}
			var js []job
			for j, n := 0, 1+r.Choose(3); j < n; j++ {
				if r.OneIn(2) {
					js = append(js, job{s: sets[r.Choose(len(sets))]})
				} else {
					js = append(js, job{f: pick()})
				}
			}
			fns = append(fns, func() {
				for _, j := range js {
					convert(&all[i], j.s, j.f)
				}
			})
		}
		no := color.NoColor
		if r.RunTasks(r.Policy(), fns...) {
			r.Fail("deadlock", "conversions wait for each other")
		}
		if color.NoColor != no {
			r.Fail("side-effect", "concurrent conversions changed color.NoColor to %v", color.NoColor)
		}
		r.nontrivial = r.nontrivial || simrt.Switches > int64(nT)
		for i := range all {
			check(all[i], fmt.Sprintf("goroutine %d after %s", i, hist))
			res = append(res, all[i]...)
		}
		hist += fmt.Sprintf("%d goroutines; ", nT)
		check(res, "after "+hist)
		seq(r.Choose(4))
	}
	no := color.NoColor
	for i, f := range cs {
		if s := f.render(); s != before[i] {
			r.Fail("side-effect", "%s rendered %s before and %s after the conversions: %s", f.what, before[i], s, hist)
		}
	}
	color.NoColor = no
	simrt.Note(hash64(hist))
	r.Sample("%d colours, %s", len(cs), hist)
	r.Trace("%s", hist)
}

func init() {
	register(&Scenario{ID: "C18", Run: c18, Quick: 200_000, Thorough: 7_000_000, Race: true,
		Real: []string{"helper/fatihcolor (instrumented real code) under the race detector", "github.com/fatih/color (real, uninstrumented)"},
		Stub: []string{"the Go scheduler: goroutines are tasks switched before statements by the tape"},
		Rule: "one run = a history of conversions of shared colours and sets mixed with switches of the process-wide NoColor, overwritten results and 2-4 goroutines converting at once; colour bytes compared with the attributes the colours were made from; non-trivial: something was switched, overwritten or interleaved; distinct by event log"})
}
