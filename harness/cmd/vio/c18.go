package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"

	"goslideverif/mc"
)

// plan is one behaviour of the underlying reader.
type plan struct {
	cuts     func(pos int) bool // is there a read boundary before byte pos?
	empty    int                // empty reads before each piece
	withData bool               // the end (or the failure) comes together with the last data
	failAt   int                // failure after this many bytes (-1: none)
	err      error
	recover  bool // reads after the failure succeed
}

type fragReader struct {
	text   string
	p      plan
	pos    int
	empty  int
	failed bool
	Reads  int
}

func (f *fragReader) Read(b []byte) (int, error) {
	f.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	if f.failed && !f.p.recover {
		return 0, f.p.err
	}
	if f.empty < f.p.empty {
		f.empty++
		return 0, nil
	}
	end := len(f.text)
	final := io.EOF
	failing := f.p.failAt >= 0 && !f.failed
	if failing {
		end = f.p.failAt
		final = f.p.err
	}
	if f.pos >= end {
		if failing {
			f.failed = true
		}
		return 0, final
	}
	f.empty = 0
	n := 0
	for n < len(b) && f.pos < end {
		if n > 0 && f.p.cuts(f.pos) {
			break
		}
		b[n] = f.text[f.pos]
		n++
		f.pos++
	}
	if f.pos == end && f.p.withData {
		if failing {
			f.failed = true
		}
		return n, final
	}
	return n, nil
}

var errInjected = errors.New("injected I/O failure")

// checkPlan reads the text through the plan.
func checkPlan(r *mc.R, text string, want expected, p plan, what func() string) {
	r.Eval()
	f := &fragReader{text: text, p: p}
	s := xcrepo.NewScanner(f)
	var kept []dataset.Example
	for s.Scan() {
		r.Step(1)
		n := len(kept)
		if n >= len(want.examples) || !sameExample(s.Example(), want.examples[n]) {
			r.Failf("text %s, %s: example %d is %v; the text has %d: %v", show(text), what(), n, s.Example(), len(want.examples), want.examples)
		}
		kept = append(kept, s.Example())
		if len(kept) > 100000 {
			r.Failf("text %s, %s: examples without end", show(text), what())
		}
	}
	for i := range kept {
		if !sameExample(kept[i], want.examples[i]) {
			r.Failf("text %s, %s: example %d changed to %v", show(text), what(), i, kept[i])
		}
	}
	err := s.Err()
	if s.Scan() || s.Err() != err {
		r.Failf("text %s, %s: reading goes on after it stopped with %v", show(text), what(), err)
	}
	if p.failAt < 0 {
		if len(kept) != len(want.examples) {
			r.Failf("text %s, %s: %d examples, the whole text gives %d; error %v", show(text), what(), len(kept), len(want.examples), err)
		}
		if want.errs == nil && err != nil || want.errs != nil && (!oneOf(err, want.errs) || s.LineNumber() != want.line) {
			r.Failf("text %s, %s: error %v at line %d, the whole text gives %v at line %d", show(text), what(), err, s.LineNumber(), want.errs, want.line)
		}
		if (want.errs == nil || want.line > 1) && (s.NumFeatures() != want.header[1] || s.NumLabels() != want.header[2] || s.TotalPoints() != want.header[0]) {
			r.Failf("text %s, %s: header read as %d %d %d", show(text), what(), s.TotalPoints(), s.NumFeatures(), s.NumLabels())
		}
		r.Outcome(fmt.Sprint("no failure: ", err))
		return
	}
	// With a failure: it is reported, unless the text before it is malformed.
	if errors.Is(err, p.err) {
		r.Outcome("failure reported")
		return
	}
	if want.errs != nil && oneOf(err, want.errs) && s.LineNumber() == want.line {
		// the malformed line must have been read completely, or be the same
		// defect that the complete text has at that place
		r.Outcome("malformed line before the failure")
		if len(kept) == len(want.examples) && lineEnd(text, want.line) <= p.failAt {
			return
		}
	}
	if err == nil && !f.failed {
		// the reader stopped before it reached the failure
		if len(kept) != len(want.examples) || want.errs != nil {
			r.Failf("text %s, %s: reading stopped without an error and without reaching the failure", show(text), what())
		}
		r.Failf("text %s, %s: reading ended without reaching the failing read", show(text), what())
	}
	r.Failf("text %s, %s: reading stopped with error %v after %d examples; the failure is hidden", show(text), what(), err, len(kept))
}

// lineEnd is the offset just after the text of the given line.
func lineEnd(text string, line int) int {
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			line--
			if line == 0 {
				return i
			}
		}
	}
	return len(text)
}

var c18 = mc.Prop{ID: "C18", Level: "fault_enumeration",
	Rule:        "for short texts every division into reads x empty reads x data-with-end, and every failure offset with every division; for longer texts every single and double cut, every failure offset with fixed read sizes, failures with and without data, transient and persistent; distinct_nontrivial counts (text, division, failure) triples with more than one read",
	Assumptions: []string{"at most three empty reads in a row"},
	Fn: func(r *mc.R) {
		short := []string{"1 1 1\n0 0:1\n", "1 1 1\n0 0:1", "1 1 1\r\n0 0:1", "1 1 1\n 0:1\n", "1 2 2\n1 1:3", "1 1 1\n", "1 1 1", "", "1 1\n0 0:1\n", "1 1 1\n1 0:1\n", "1 1 1\n0\n", "\n1 1 1\n"}
		for _, t := range []string{"1 1 1\n0 0:1\n0 0:2", "9 9 9\n1 1:12\n\n"} {
			if r.Thorough() {
				short = append(short, t)
			} else {
				short = append(short, t[:len(t)-2])
			}
		}
		for _, text := range short {
			text := text
			n := len(text)
			for fail := -1; fail <= n; fail++ {
				fail := fail
				r.Case(fmt.Sprintf("all divisions/%q/failure at %d", text, fail), func() {
					want := reference(text)
					for m := 0; m == 0 || m < 1<<(n-1); m++ {
						m := m
						cuts := func(pos int) bool { return m>>(pos-1)&1 == 1 }
						// cuts beyond the failure make no difference
						if fail >= 1 && m>>(fail-1) != 0 {
							break
						}
						for _, e := range []int{0, 1, 3} {
							for _, wd := range []bool{false, true} {
								for _, rec := range []bool{false, true} {
									if rec && fail < 0 {
										continue
									}
									p := plan{cuts: cuts, empty: e, withData: wd, failAt: fail, err: errInjected, recover: rec}
									checkPlan(r, text, want, p, func() string {
										return fmt.Sprintf("reads cut at bits %b, %d empty reads, end with data %v, failure at %d, recovering %v", m, e, wd, fail, rec)
									})
									if n > 0 && (m != 0 || e > 0) {
										r.StateHash(uint64(mc.NewH().Add(uint64(m)).Add(uint64(e)).Add(uint64(fail + 2)).Add(uint64(n)).Add(uint64(text[minI(n-1, 6)] + text[minI(n-1, 8)]))))
									}
								}
							}
						}
						if n == 0 {
							break
						}
					}
				})
			}
		}
		long := []string{
			"3 20 10\n1,2 3:1.5 4:-2 19:0.25\n 0:1\n9 11:12.75 12:13\n",
			"3 20 10\r\n1,2 3:1.5 4:-2\r\n0 0:1\r\n9 11:12.75",
			"3 20 10\n1 12:12\n1x 12:12\n2 1:1\n",
			"3 20 10\n1 12:12\n10 12:12\n2 1:1\n",
			"3 20 10\n1 12:12\n1 20:12\n2 1:1\n",
			"3 20 10\n1 12:12\n1 2:1:2\n",
			"3 20 10\n1 12:12\n1\n2 1:1\n",
			"3 20 x\n1 12:12\n",
			"30 200 10\n\n1 12:12\n",
			"3 200 100\n12,34 123:45.678 199:1\n99 100:100\n",
		}
		for _, text := range long {
			text := text
			n := len(text)
			r.Case(fmt.Sprintf("one and two cuts/%q", text), func() {
				want := reference(text)
				for a := 1; a <= n; a++ {
					for b := a; b <= n; b++ {
						cuts := func(pos int) bool { return pos == a || pos == b }
						for _, e := range []int{0, 2} {
							for _, wd := range []bool{false, true} {
								checkPlan(r, text, want, plan{cuts: cuts, empty: e, withData: wd, failAt: -1}, func() string {
									return fmt.Sprintf("reads cut at %d and %d, %d empty reads, end with data %v", a, b, e, wd)
								})
							}
						}
						r.StateHash(uint64(mc.NewH().Add(uint64(a)).Add(uint64(b)).Add(uint64(n)).Add(uint64(text[n/2]))))
					}
				}
			})
			for fail := 0; fail <= n; fail++ {
				fail := fail
				r.Case(fmt.Sprintf("failures/%q/at %d", text, fail), func() {
					want := reference(text)
					for size := 1; size <= n; size++ {
						cuts := func(pos int) bool { return pos%size == 0 }
						for _, e := range []int{0, 1} {
							for _, wd := range []bool{false, true} {
								for _, err := range []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe} {
									for _, rec := range []bool{false, true} {
										checkPlan(r, text, want, plan{cuts: cuts, empty: e, withData: wd, failAt: fail, err: err, recover: rec}, func() string {
											return fmt.Sprintf("reads of %d bytes, %d empty reads, failure (%v) after %d bytes, with data %v, recovering %v", size, e, err, fail, wd, rec)
										})
									}
								}
							}
						}
						r.StateHash(uint64(mc.NewH().Add(uint64(size)).Add(uint64(fail)).Add(uint64(n)).Add(uint64(text[n/2]) + 1000)))
					}
					// one cut before the failure, at every place
					for a := 1; a <= fail; a++ {
						for _, wd := range []bool{false, true} {
							checkPlan(r, text, want, plan{cuts: func(pos int) bool { return pos == a }, withData: wd, failAt: fail, err: errInjected}, func() string {
								return fmt.Sprintf("reads cut at %d, failure after %d bytes, with data %v", a, fail, wd)
							})
						}
					}
				})
			}
		}
		// a file larger than any buffer
		r.Case("large file", func() {
			text := "2000 1000 100\n"
			for i := 0; i < 4000; i++ {
				text += fmt.Sprintf("%d,%d %d:%d.5 %d:-%d\n", i%100, (i*7)%100, i%1000, i, (i*3)%1000, i%17)
			}
			want := reference(text)
			for _, size := range []int{1, 2, 3, 7, 64, 1000, 4095, 4096, 4097, 65536, 100000} {
				cuts := func(pos int) bool { return pos%size == 0 }
				for _, wd := range []bool{false, true} {
					checkPlan(r, text, want, plan{cuts: cuts, withData: wd, failAt: -1}, func() string { return fmt.Sprintf("reads of %d bytes", size) })
				}
				for fail := 0; fail <= len(text); fail += 997 {
					for _, wd := range []bool{false, true} {
						checkPlan(r, text, want, plan{cuts: cuts, withData: wd, failAt: fail, err: errInjected}, func() string {
							return fmt.Sprintf("reads of %d bytes, failure after %d", size, fail)
						})
					}
				}
			}
		})
	}}

func minI(a, b int) int {
	if a < b {
		if a < 0 {
			return 0
		}
		return a
	}
	return b
}
