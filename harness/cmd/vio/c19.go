package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/mc"
)

// field describes one configuration field: its documented default and values
// a file may give it.
type field struct {
	name string
	def  string   // JSON of the default
	good []string // valid values
	bad  []string // values of the wrong type
}

var notNumbers = []string{`"1"`, `true`, `{}`, `[1]`, `""`}
var notInts = append([]string{`1.5`, `1e400`, `9223372036854775808`}, notNumbers...)
var notSmall = append([]string{`128`, `-129`, `1000`}, notInts...)
var notStrings = []string{`1`, `true`, `{}`, `["a"]`}
var notBools = []string{`1`, `"true"`, `0`, `{}`, `[true]`}
var notIntSlices = []string{`1`, `"1"`, `true`, `{}`, `[1.5]`, `["1"]`, `[[1]]`, `[1,true]`}
var notFloatSlices = []string{`1`, `"1"`, `true`, `{}`, `["1"]`, `[[1]]`, `[1,true]`, `[1e400]`}

var fields = []field{
	{"RangePow", `[]`, []string{`[6,18]`, `[1]`, `[]`}, notIntSlices},
	{"K", `[]`, []string{`[2,6,3]`, `[9]`, `[]`}, notIntSlices},
	{"L", `[]`, []string{`[20,50]`, `[0,-1]`, `[]`}, notIntSlices},
	{"Sparsity", `[]`, []string{`[1,0.005]`, `[0.5,1,1,0.1]`, `[]`}, notFloatSlices},
	{"BatchSize", `1000`, []string{`128`, `0`, `-5`}, notInts},
	{"Rehash", `1000`, []string{`6400`, `0`, `1`}, notInts},
	{"Rebuild", `1000`, []string{`128000`, `0`, `1`}, notInts},
	{"InputDim", `784`, []string{`135909`, `1`, `0`}, notInts},
	{"TotRecords", `60000`, []string{`490449`, `0`, `1`}, notInts},
	{"TotRecordsTest", `10000`, []string{`153025`, `0`, `1`}, notInts},
	{"LearningRate", `0.0001`, []string{`0.001`, `0`, `5`}, notNumbers},
	{"Epoch", `5`, []string{`1`, `0`, `20`}, notInts},
	{"Stepsize", `20`, []string{`50`, `1`, `0`}, notInts},
	{"SizesOfLayers", `[]`, []string{`[128,670091]`, `[1]`, `[]`}, notIntSlices},
	{"NumLayer", `3`, []string{`2`, `0`, `7`}, notInts},
	{"TrainData", `""`, []string{`"/a/b.txt"`, `"x y"`, `""`}, notStrings},
	{"TestData", `""`, []string{`"/c/d.txt"`, `"é\""`, `""`}, notStrings},
	{"Weights", `""`, []string{`"w.npz"`, `"1"`, `""`}, notStrings},
	{"SavedWeights", `""`, []string{`"s.npz"`, `"2"`, `""`}, notStrings},
	{"LogFile", `""`, []string{`"log.txt"`, `"3"`, `""`}, notStrings},
	{"UseAdam", `true`, []string{`false`, `true`}, notBools},
	{"HashFunction", `2`, []string{`1`, `3`, `4`}, notSmall},
	{"LoadWeight", `false`, []string{`true`, `false`}, notBools},
	{"LayerMode", `4`, []string{`1`, `2`, `3`}, notSmall},
	{"CpuProfile", `false`, []string{`true`, `false`}, notBools},
	{"MemProfile", `false`, []string{`true`, `false`}, notBools},
}

// value is the Go value a JSON text denotes for a field, as a canonical string.
func canon(f field, js string) string {
	var v interface{}
	d := json.NewDecoder(strings.NewReader(js))
	if err := d.Decode(&v); err != nil {
		panic("HARNESS-BUG: " + js)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// got is the canonical string of a loaded field.
func got(c *configuration.Configuration, f field) string {
	v := reflect.ValueOf(c).Elem().FieldByName(f.name)
	if !v.IsValid() {
		return "<no such field>"
	}
	if v.Kind() == reflect.Slice && v.Len() == 0 {
		return "[]"
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return err.Error()
	}
	var x interface{}
	json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

type setting struct{ f, v int } // field number, value number

func file(ss []setting, style int) string {
	var parts []string
	for _, s := range ss {
		parts = append(parts, fmt.Sprintf("%q: %s", fields[s.f].name, fields[s.f].good[s.v]))
	}
	switch style {
	case 1:
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
		return "\n\t{\r\n\t" + strings.Join(parts, " ,\n") + "\n\t}\n\n"
	}
	return "{" + strings.Join(parts, ",") + "}"
}

// check19 compares a configuration with the defaults overridden by ss.
func check19(r *mc.R, c *configuration.Configuration, ss []setting, what string) {
	want := map[int]string{}
	for i, f := range fields {
		want[i] = canon(f, f.def)
	}
	for _, s := range ss {
		want[s.f] = canon(fields[s.f], fields[s.f].good[s.v])
	}
	for i, f := range fields {
		if g := got(c, f); g != want[i] {
			r.Failf("%s: %s is %s, want %s", what, f.name, g, want[i])
		}
	}
}

// scribble changes everything a configuration refers to.
func scribble(c *configuration.Configuration) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				switch f.Index(j).Kind() {
				case reflect.Int:
					f.Index(j).SetInt(-77)
				case reflect.Float64:
					f.Index(j).SetFloat(-77)
				}
			}
			// reach the spare capacity as well
			g := reflect.AppendSlice(f.Slice(0, 0), reflect.MakeSlice(f.Type(), 3, 3))
			f.Set(g)
		case reflect.Int, reflect.Int8:
			f.SetInt(-7)
		case reflect.Float64:
			f.SetFloat(-7)
		case reflect.String:
			f.SetString("scribbled")
		case reflect.Bool:
			f.SetBool(!f.Bool())
		}
	}
}

func clipTo(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

type loader struct {
	r    *mc.R
	path string
}

func (l loader) write(text string) {
	if err := os.WriteFile(l.path, []byte(text), 0o600); err != nil {
		panic("HARNESS-BUG: " + err.Error())
	}
}

func (l loader) load(ss []setting, style int) *configuration.Configuration {
	text := file(ss, style)
	l.write(text)
	l.r.Eval()
	l.r.Step(1)
	c, err := configuration.FromJsonFile(l.path)
	if err != nil || c == nil {
		l.r.Failf("file %s: error %v", show(text), err)
	}
	check19(l.r, c, ss, "file "+show(text))
	l.r.State(text)
	return c
}

// refuse loads a text that is not a configuration.
func (l loader) refuse(text string) {
	l.write(text)
	l.r.Eval()
	l.r.Step(1)
	c, err := configuration.FromJsonFile(l.path)
	if err == nil || c != nil {
		l.r.Failf("file %s: configuration %+v and error %v; want an error only", show(text), c, err)
	}
	l.r.State(text)
}

func allSet(v int) []setting {
	var ss []setting
	for i := range fields {
		n := v
		if n >= len(fields[i].good) {
			n = 0
		}
		ss = append(ss, setting{i, n})
	}
	return ss
}

var c19 = mc.Prop{ID: "C19", Level: "model_checking",
	Rule:        "every subset of at most two (thorough: three) and of at least all but two fields, with every combination of the listed values; every wrong type per field, alone and among valid fields; every truncation of full files; files of 2^8 to 2^17 (2^24) bytes and lists of up to 5000 entries; every history of the bounded length over loads, failing loads and modifications of loaded, default and global configurations; a state is a file text or a history",
	Assumptions: []string{"JSON syntax is that of encoding/json; null values and unknown or repeated names are not covered"},
	Fn: func(r *mc.R) {
		dir := ""
		ld := func() loader {
			if dir == "" {
				d, err := os.MkdirTemp(".", "cfg")
				if err != nil {
					panic("HARNESS-BUG: " + err.Error())
				}
				dir = d
			}
			configuration.Global = configuration.Default()
			return loader{r, filepath.Join(dir, "c.json")}
		}
		r.Case("defaults", func() {
			l := ld()
			check19(r, configuration.Default(), nil, "Default()")
			check19(r, configuration.Global, nil, "Global")
			l.load(nil, 0)
			l.load(nil, 1)
			n := reflect.TypeOf(configuration.Configuration{}).NumField()
			r.Note("configuration fields", int64(n))
			if n < len(fields) {
				r.Failf("the configuration has %d fields, documented are %d", n, len(fields))
			}
		})
		for i := range fields {
			i := i
			r.Case("one and two fields/"+fields[i].name, func() {
				l := ld()
				for v := range fields[i].good {
					l.load([]setting{{i, v}}, 0)
					l.load([]setting{{i, v}}, 1)
					for j := range fields {
						if j == i {
							continue
						}
						for w := range fields[j].good {
							l.load([]setting{{i, v}, {j, w}}, 0)
							if r.Thorough() {
								for k := j + 1; k < len(fields); k++ {
									if k == i {
										continue
									}
									for x := 0; x < 2; x++ {
										l.load([]setting{{i, v}, {j, w}, {k, x}}, 0)
									}
								}
							}
						}
					}
				}
				if configuration.Global == nil || got(configuration.Global, fields[4]) != "1000" {
					r.Failf("loading files changed the global configuration")
				}
			})
			r.Case("all but one and two fields/"+fields[i].name, func() {
				l := ld()
				for v := 0; v < 3; v++ {
					full := allSet(v)
					l.load(full, 0)
					l.load(full, 1)
					for j := range fields {
						var ss []setting
						for _, s := range full {
							if s.f != i && s.f != j {
								ss = append(ss, s)
							}
						}
						l.load(ss, 0)
					}
				}
			})
			r.Case("wrong types/"+fields[i].name, func() {
				l := ld()
				for _, b := range fields[i].bad {
					l.refuse(fmt.Sprintf("{%q: %s}", fields[i].name, b))
					for j := range fields {
						if j == i {
							continue
						}
						good := fmt.Sprintf("%q: %s", fields[j].name, fields[j].good[0])
						bad := fmt.Sprintf("%q: %s", fields[i].name, b)
						l.refuse("{" + good + "," + bad + "}")
						l.refuse("{" + bad + "," + good + "}")
					}
					// a failed load leaves nothing behind
					l.load(nil, 0)
				}
			})
		}
		for v := 0; v < 3; v++ {
			v := v
			r.Case(fmt.Sprintf("truncations/values %d", v), func() {
				l := ld()
				for style := 0; style < 2; style++ {
					text := file(allSet(v), style)
					end := strings.LastIndex(text, "}")
					for n := 0; n <= end; n++ {
						l.refuse(text[:n])
					}
					l.refuse(text + "x")
					l.refuse(text + "{}")
					l.refuse(text[:end] + ",}")
				}
			})
		}
		// files of many sizes: blanks before, inside and after, and long lists
		for v := 0; v < 3; v++ {
			v := v
			r.Case(fmt.Sprintf("large files/values %d", v), func() {
				l := ld()
				ss := allSet(v)
				top := 17
				if r.Thorough() {
					top = 24
				}
				for sh := 8; sh <= top; sh++ {
					for d := -1; d <= 1; d++ {
						for _, where := range []int{0, 1, 2} {
							text := file(ss, v%2)
							n := 1<<sh + d - len(text)
							if n < 0 {
								continue
							}
							pad := strings.Repeat(" \n\t ", n/4) + strings.Repeat(" ", n%4)
							at := []int{0, strings.Index(text, "{") + 1, len(text)}[where]
							text = text[:at] + pad + text[at:]
							l.write(text)
							r.Eval()
							r.Step(1)
							what := fmt.Sprintf("file of %d bytes, blanks at %d", len(text), at)
							c, err := configuration.FromJsonFile(l.path)
							if err != nil || c == nil {
								r.Failf("%s: error %v", what, err)
							}
							check19(r, c, ss, what)
							r.State(sh, d, where, v)
						}
					}
				}
				for _, n := range []int{10, 63, 64, 65, 255, 257, 1025, 5000} {
					var e, x []string
					for i := 0; i < n; i++ {
						e = append(e, fmt.Sprint(i*7+v))
						x = append(x, fmt.Sprint(float64(i)+0.25))
					}
					ints, floats := "["+strings.Join(e, ",")+"]", "["+strings.Join(x, ",")+"]"
					long := strings.Repeat("d/", n) + "f"
					text := fmt.Sprintf(`{"SizesOfLayers":%s,"Sparsity":%s,"L":%s,"TrainData":%q,"K":%s,"Epoch":3,"RangePow":%s}`, ints, floats, ints, long, ints, ints)
					l.write(text)
					r.Eval()
					r.Step(1)
					c, err := configuration.FromJsonFile(l.path)
					if err != nil || c == nil {
						r.Failf("lists of %d: error %v", n, err)
					}
					for i, f := range fields {
						want := canon(f, f.def)
						switch f.name {
						case "SizesOfLayers", "L", "K", "RangePow":
							want = ints
						case "Sparsity":
							want = floats
						case "TrainData":
							want = fmt.Sprintf("%q", long)
						case "Epoch":
							want = "3"
						}
						if g := got(c, fields[i]); g != want {
							r.Failf("lists of %d: %s is %s, want %s", n, f.name, clipTo(g), clipTo(want))
						}
					}
					r.State(n, v)
				}
			})
		}
		r.Case("no such file", func() {
			l := ld()
			for _, p := range []string{filepath.Join(dir, "missing.json"), dir, "", filepath.Join(dir, "missing", "x.json")} {
				r.Eval()
				if c, err := configuration.FromJsonFile(p); err == nil || c != nil {
					r.Failf("path %q: configuration %v and error %v", p, c, err)
				}
			}
			for _, t := range []string{"", " ", "[]", "1", `"x"`, "{", "}", "{]", `{"K"}`, `{"K":}`, `{K:[1]}`, `{'K':[1]}`, "\x00", `{"K":[1]`, `{"K":[1}`, `{"Epoch":01}`, `{"Epoch":+1}`, `{"UseAdam":True}`} {
				l.refuse(t)
			}
		})
		// histories
		depth := 4
		if r.Thorough() {
			depth = 5
		}
		sets := [][]setting{nil, allSet(0), {{1, 0}, {3, 1}}, {{0, 1}, {4, 1}, {20, 0}}}
		const nops = 4*1 + 5
		for first := 0; first < nops; first++ {
			first := first
			r.Case(fmt.Sprintf("histories/length %d/first operation %d", depth, first), func() {
				l := ld()
				tuples(depth-1, nops, func(rest []int) {
					type live struct {
						c    *configuration.Configuration
						snap string
						what string
					}
					var lives []live
					configuration.Global = configuration.Default()
					globalSnap := fmt.Sprintf("%+v", *configuration.Global)
					keep := func(c *configuration.Configuration, what string) {
						lives = append(lives, live{c, fmt.Sprintf("%+v", *c), what})
					}
					for k, o := range append([]int{first}, rest...) {
						what := fmt.Sprintf("step %d of history %d %v", k, first, rest)
						switch {
						case o < 4: // load
							keep(l.load(sets[o], k%2), what)
						case o == 4: // failing load
							l.refuse(`{"K":[5,6],"BatchSize":"x"}`)
						case o == 5: // default
							c := configuration.Default()
							check19(r, c, nil, what+": Default()")
							keep(c, what)
						case o == 6: // scribble on the latest
							if len(lives) > 0 {
								x := &lives[len(lives)-1]
								scribble(x.c)
								x.snap = fmt.Sprintf("%+v", *x.c)
								if configuration.Global == x.c {
									globalSnap = x.snap
								}
							}
						case o == 7: // scribble on the first
							if len(lives) > 0 {
								x := &lives[0]
								scribble(x.c)
								x.snap = fmt.Sprintf("%+v", *x.c)
								if configuration.Global == x.c {
									globalSnap = x.snap
								}
							}
						case o == 8: // activate the latest
							if len(lives) > 0 {
								configuration.Global = lives[len(lives)-1].c
								globalSnap = lives[len(lives)-1].snap
							}
						}
						r.Step(1)
						for _, x := range lives {
							if g := fmt.Sprintf("%+v", *x.c); g != x.snap {
								r.Failf("%s: the configuration from %s changed from %s to %s", what, x.what, x.snap, g)
							}
						}
						if g := fmt.Sprintf("%+v", *configuration.Global); g != globalSnap {
							r.Failf("%s: the global configuration changed from %s to %s", what, globalSnap, g)
						}
					}
					r.State(first, rest)
				})
			})
		}
		if dir != "" {
			os.RemoveAll(dir)
		}
	}}
