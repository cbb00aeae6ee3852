package main

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"

	"goslideverif/mc"
)

// checkText reads the whole text and compares everything with the reference.
func checkText(r *mc.R, text string) {
	r.Eval()
	want := reference(text)
	s := xcrepo.NewScanner(strings.NewReader(text))
	var kept []dataset.Example
	outcome := "end of file"
	headerBad := want.errs != nil && want.line == 1
	if !headerBad {
		if err := s.Err(); err != nil {
			r.Failf("text %s: error %v after the header", show(text), err)
		}
		if s.TotalPoints() != want.header[0] || s.NumFeatures() != want.header[1] || s.NumLabels() != want.header[2] {
			r.Failf("text %s: header read as %d points, %d features, %d labels; want %v", show(text), s.TotalPoints(), s.NumFeatures(), s.NumLabels(), want.header)
		}
	} else if !oneOf(s.Err(), want.errs) || s.LineNumber() != 1 {
		r.Failf("text %s: malformed header gives error %v at line %d", show(text), s.Err(), s.LineNumber())
	}
	for s.Scan() {
		r.Step(1)
		n := len(kept)
		if n >= len(want.examples) {
			r.Failf("text %s: delivers a %d-th example %v; want %d and error %v", show(text), n+1, s.Example(), len(want.examples), want.errs)
		}
		ex := s.Example()
		if !sameExample(ex, want.examples[n]) {
			r.Failf("text %s: example %d is %v, want %v", show(text), n, ex, want.examples[n])
		}
		if s.LineNumber() != n+2 {
			r.Failf("text %s: example %d is said to be on line %d, want %d", show(text), n, s.LineNumber(), n+2)
		}
		if s.Err() != nil {
			r.Failf("text %s: example %d is delivered with error %v", show(text), n, s.Err())
		}
		kept = append(kept, ex)
	}
	if len(kept) != len(want.examples) {
		r.Failf("text %s: %d examples delivered, want %d; error %v", show(text), len(kept), len(want.examples), s.Err())
	}
	for i := range kept {
		if !sameExample(kept[i], want.examples[i]) {
			r.Failf("text %s: example %d changed to %v after it was delivered, want %v", show(text), i, kept[i], want.examples[i])
		}
	}
	for i := 0; i < 3; i++ {
		err := s.Err()
		if want.errs == nil {
			if err != nil {
				r.Failf("text %s: error %v (line %d) for a well-formed text", show(text), err, s.LineNumber())
			}
		} else {
			outcome = err.Error()
			if !oneOf(err, want.errs) {
				r.Failf("text %s: error %v, want %v", show(text), err, want.errs)
			}
			if s.LineNumber() != want.line {
				r.Failf("text %s: error %v reported at line %d, want %d", show(text), err, s.LineNumber(), want.line)
			}
		}
		if s.Scan() {
			r.Failf("text %s: an example is delivered after the end (%v)", show(text), s.Example())
		}
	}
	r.Outcome(outcome)
	h := mc.NewH()
	for i := 0; i < len(text) && i < 64; i++ {
		h = h.Add(uint64(text[i]))
	}
	r.StateHash(uint64(h.Add(uint64(len(text)))))
}

var c17 = mc.Prop{ID: "C17", Level: "model_checking",
	Rule:        "every string up to the bound over the grammar's characters, as data and as header; every product of label and feature tokens (well-formed, malformed, out of bounds) with every line ending, in one and two lines; all numerals of up to 26 digits over 6 patterns, with the point at every place, next to numerals that differ in one digit; lines and files around and far beyond buffer sizes; a state is a text; examples, errors, line numbers and header fields are compared with a reference parser",
	Assumptions: []string{"number syntax is that of strconv", "where a line has several defects any error describing one of them is accepted", "lines up to 2^31 bytes, tried up to the bound"},
	Fn: func(r *mc.R) {
		alphabet := "013-,: .\n\rxe+"
		// data strings after a fixed header
		depth := 6
		if r.Thorough() {
			depth = 7
		}
		for n := 0; n <= depth; n++ {
			prefix := 0
			if n >= 4 {
				prefix = 2
			}
			tuples(prefix, len(alphabet), func(pre []int) {
				head := ""
				for _, c := range pre {
					head += alphabet[c : c+1]
				}
				n := n
				r.Case(fmt.Sprintf("data strings/length %d/starting with %q", n, head), func() {
					buf := []byte("9 2 2\n" + head)
					base := len(buf)
					tuples(n-len(head), len(alphabet), func(v []int) {
						buf = buf[:base]
						for _, c := range v {
							buf = append(buf, alphabet[c])
						}
						checkText(r, string(buf))
					})
				})
			})
		}
		// strings after the beginning of a line, so that the bound reaches deep features
		for _, head := range []string{"9 2 2\n0", "9 2 2\n0 0:1", "9 2 2\n0,1 0:1 ", "9 2 2\n0 1:2\r\n1 ", "9 4 4\n3,2 ", "9 2 2\n 0:0"} {
			for c := range alphabet {
				head, c := head, c
				d := depth - 2
				r.Case(fmt.Sprintf("data strings/after %q/length %d/starting with %q", head, d+1, alphabet[c]), func() {
					for n := 0; n <= d; n++ {
						tuples(n, len(alphabet), func(v []int) {
							buf := []byte(head)
							buf = append(buf, alphabet[c])
							for _, c := range v {
								buf = append(buf, alphabet[c])
							}
							checkText(r, string(buf))
						})
					}
				})
			}
		}
		// headers
		ha := "12 \n\r-+0x"
		hd := 7
		if r.Thorough() {
			hd = 8
		}
		for n := 0; n <= hd; n++ {
			prefix := 0
			if n >= 4 {
				prefix = 1
			}
			tuples(prefix, len(ha), func(pre []int) {
				head := ""
				for _, c := range pre {
					head += ha[c : c+1]
				}
				n := n
				r.Case(fmt.Sprintf("headers/length %d/starting with %q", n, head), func() {
					tuples(n-len(head), len(ha), func(v []int) {
						buf := []byte(head)
						for _, c := range v {
							buf = append(buf, ha[c])
						}
						checkText(r, string(buf))
						checkText(r, string(buf)+"\n0 0:1\n1 1:1")
					})
				})
			})
		}
		r.Case("headers/tokens", func() {
			toks := []string{"1", "2", "10", "0", "-1", "", "x", "1.0", "+3", "007", "9223372036854775807", "9223372036854775808", "1e3", "0x2", "1_0", "\t1", "1,"}
			for _, a := range toks {
				for _, b := range toks {
					for _, c := range toks {
						for _, sep := range []string{" ", "  ", "\t", ","} {
							for _, tail := range []string{"", "\n", "\r\n", " \n", "\n0 0:1\n", "\n1 1:1", "\n2 2:1"} {
								checkText(r, a+sep+b+sep+c+tail)
							}
						}
					}
					checkText(r, a+" "+b+"\n0 0:1")
					checkText(r, a+" "+b+" 1 1\n0 0:1")
				}
			}
		})
		// tokens
		labels := []string{"", "0", "1", "2", "3", "-1", "x", "0,1", "1,0", "1,1", "0,", ",", ",1", "0,2", "0,x", "01", "+1", "1.5", "0,1,2", "0;1", "9223372036854775808", "0:1", "1\t"}
		feats := []string{"0:1", "1:2.5", "2:-3", "3:1", "-1:1", "0:", "0", ":1", "0:1:2", "", "0:x", "x:1", "1:1e400", "1:nan", "1:-Inf", "1:1e-3", "+1:2", "0x1:1", "1:0x1p-2", "0:1,2", "2:1_0", "1:-0", "2:0.1", "1.0:1", "99999999999999999999:1", "\t0:1", "0: 1"}
		ends := []string{"", "\n", "\r\n", "\r", "\n\n", " \n", "\n\r\n"}
		for li := range labels {
			li := li
			r.Case(fmt.Sprintf("tokens/labels %q", labels[li]), func() {
				for _, end := range ends {
					checkText(r, "5 3 2\n"+labels[li]+end)
					for _, f := range feats {
						checkText(r, "5 3 2\n"+labels[li]+" "+f+end)
						for _, g := range feats {
							checkText(r, "5 3 2\r\n"+labels[li]+" "+f+" "+g+end)
						}
					}
				}
				for _, f := range feats {
					for _, g := range feats {
						for _, h := range feats {
							checkText(r, "1 4 3\n"+labels[li]+" "+f+" "+g+" "+h+"\n")
						}
					}
				}
			})
		}
		// two and three lines: errors stop everything, good lines follow each other
		var ls []string
		for _, l := range []string{"", "0", "0,1", "5", "x"} {
			for _, f := range []string{"", " 0:1", " 1:2 0:-1", " 3:1", " 0", " 0:1:1", " 0:x", "  0:1"} {
				ls = append(ls, l+f)
			}
		}
		for i := range ls {
			i := i
			r.Case(fmt.Sprintf("lines/first %q", ls[i]), func() {
				for _, b := range ls {
					for _, nl := range []string{"\n", "\r\n", "\n\n"} {
						checkText(r, "3 3 2\n"+ls[i]+nl+b)
						checkText(r, "3 3 2\n"+ls[i]+nl+b+nl)
						checkText(r, "3 3 2\n0 0:1"+nl+ls[i]+nl+b+nl)
					}
					for _, c := range ls {
						checkText(r, "3 3 2\n"+ls[i]+"\n"+b+"\n"+c+"\n")
					}
				}
			})
		}
		// bounds announced by the header
		r.Case("bounds", func() {
			for f := 1; f <= 5; f++ {
				for l := 1; l <= 5; l++ {
					for i := -1; i <= 6; i++ {
						for j := -1; j <= 6; j++ {
							for k := -1; k <= 6; k++ {
								checkText(r, fmt.Sprintf("1 %d %d\n%d %d:1\n", f, l, i, j))
								checkText(r, fmt.Sprintf("1 %d %d\n%d,%d %d:1 %d:2\n", f, l, i, k, j, k))
							}
						}
					}
				}
			}
			for _, b := range []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 2} {
				for d := -1; d <= 1; d++ {
					checkText(r, fmt.Sprintf("1 %d 1\n0 %d:1\n", b, b+d))
					checkText(r, fmt.Sprintf("1 1 %d\n%d 0:1\n", b, b+d))
					checkText(r, fmt.Sprintf("%d 1 1\n0 0:1\n", b))
					checkText(r, fmt.Sprintf("1 %d %d\n%d,0 0:1 %d:1\n", b, b, b-1, b-1))
				}
			}
		})
		// values keep every digit
		r.Case("values", func() {
			for _, v := range []string{"0.1", "-0.1", "1e308", "5e-324", "1.7976931348623157e308", "123456789012345678", "0.30000000000000004", "3.14159265358979", "-0", "1e-400", "1e309", "00.50", ".5", "5.", "16777217", "1.00000001", "Infinity", "-inf", "NaN"} {
				checkText(r, "1 1 1\n0 0:"+v)
				checkText(r, "1 1 1\n0 0:"+v+" 0:"+v+"\n0 0:"+v+"\n")
			}
		})
		// numerals of every length that differ in one digit only
		for n := 1; n <= 26; n++ {
			n := n
			r.Case(fmt.Sprintf("numerals/%d digits", n), func() {
				for _, pattern := range []string{"12345678901234567890123456", "99999999999999999999999999", "10000000000000000000000000", "31415926535897932384626433", "00000000000000000000000007", "90071992547409921801439850"} {
					digits := []byte(pattern[:n])
					for point := -1; point <= n; point++ {
						num := func(d []byte) string {
							if point < 0 {
								return string(d)
							}
							return string(d[:point]) + "." + string(d[point:])
						}
						for at := 0; at < n; at++ {
							other := append([]byte{}, digits...)
							other[at] = '0' + (digits[at]-'0'+1)%10
							a, b := num(digits), num(other)
							checkText(r, "9 2 2\n0 0:"+a+" 1:"+b+"\n1 1:-"+a+" 0:"+b+"e-3\n")
						}
					}
					for at := 0; at < n && n <= 18; at++ {
						other := append([]byte{}, digits...)
						other[at] = '0' + (digits[at]-'0'+1)%10
						a, b := string(digits), string(other)
						checkText(r, "9 9000000000000000000 9000000000000000000\n"+a+","+b+" "+a+":1 "+b+":2\n"+b+" "+b+":1\n")
					}
				}
			})
		}
		// many lines: kept examples, buffer boundaries at every offset
		shift := 600
		step := 13
		if r.Thorough() {
			shift, step = 4200, 1
		}
		for s := 0; s <= shift; s += 60 {
			s := s
			r.Case(fmt.Sprintf("long files/shift %d", s), func() {
				for p := s; p < s+60; p += step {
					var b strings.Builder
					b.WriteString("7 1000 100\n")
					b.WriteString("0 0:1." + strings.Repeat("0", p) + "\n")
					for i := 0; i < 1200; i++ {
						fmt.Fprintf(&b, "%d,%d %d:%d.5 %d:-%d\n", i%100, (i*7)%100, i%1000, i, (i*3)%1000, i%17)
					}
					checkText(r, b.String())
				}
			})
		}
		for _, size := range []int{4000, 4095, 4096, 4097, 65000, 65535, 65536, 65537, 70000, 131072, 1 << 20, 5 << 20, 40 << 20} {
			size := size
			if size > 6<<20 && !r.Thorough() {
				continue
			}
			r.Case(fmt.Sprintf("long lines/%d bytes", size), func() {
				for _, end := range []string{"", "\n", "\r\n", "\n1 1:1\n"} {
					feat := strings.Repeat(" 0:1", size/4)
					checkText(r, "2 2 2\n0"+feat+end)
					checkText(r, "2 2 2\n"+strings.Repeat("1,", size/2)+"0 1:2"+end)
					checkText(r, "2 2 2\n0 0:1\n0 0:"+strings.Repeat("0", size)+"1"+end)
					checkText(r, "2 2 2\n"+strings.Repeat("x", size)+end)
					checkText(r, "2 2 "+strings.Repeat("0", size)+"2"+end)
				}
			})
		}
		// longer than any buffer a maintainer would think of, cheap to read
		huge := []int{1 << 27}
		if r.Thorough() {
			huge = append(huge, 1<<28+1, 1<<29) // more would need more memory than a case may use
		}
		for _, size := range huge {
			size := size
			r.Case(fmt.Sprintf("huge line/%d bytes", size), func() {
				checkText(r, "2 2 2\n0 0:1\n0 1:"+strings.Repeat("0", size)+"1\n1 1:1\n")
			})
		}
		for _, size := range []int{2, 9, 33, 65, 129, 257, 513, 1025, 4097, 20000} {
			size := size
			r.Case(fmt.Sprintf("wide lines/%d entries", size), func() {
				var b strings.Builder
				fmt.Fprintf(&b, "9 %d %d\n", 3*size, 2*size)
				for i := 0; i < 9; i++ {
					for _, n := range []int{size, size - 1, 1, size / 2} {
						for j := 0; j < n; j++ {
							if j > 0 {
								b.WriteByte(',')
							}
							fmt.Fprint(&b, (i*31+j*7)%(2*size))
						}
						for j := 0; j <= n; j++ {
							fmt.Fprintf(&b, " %d:%d.%d", (i*17+j*5)%(3*size), i, j)
						}
						b.WriteByte('\n')
					}
				}
				checkText(r, b.String())
			})
		}
		r.Case("many lines", func() {
			var b strings.Builder
			b.WriteString("70000 50 9\n")
			for i := 0; i < 140000; i++ {
				fmt.Fprintf(&b, "%d %d:%d\n", i%9, i%50, i)
			}
			checkText(r, b.String())
			checkText(r, b.String()+"9 1:1\n0 1:1\n")
		})
	}}
