package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"goslideverif/mc"
)

var c32 = mc.Prop{
	ID: "C32", Level: "model_checking", Fn: runC32,
	Rule: "the real program run as a process with a recording network package, for all four settings of the profile switches x schedules with and without training and evaluations x working directories in which either, both or neither profile file exists before (longer or shorter than the new one): the calls on the network equal those of the schedule, and each profile file is complete and decodes as a profile of its kind exactly when its switch is on, and is untouched or absent otherwise",
	Assumptions: []string{"the network package is replaced by a recorder with the same interface and copy-on-write behaviour",
		"a profile is complete when it decompresses to its end and its fields decode; its samples are not judged"},
}

// profile decodes a profile file and lists its strings.
func profile(data []byte) (map[string]bool, error) {
	z, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(z)
	if err != nil {
		return nil, err
	}
	o := map[string]bool{}
	varint := func() (uint64, bool) {
		var v uint64
		for i := 0; i < 10 && len(b) > 0; i++ {
			c := b[0]
			b = b[1:]
			v |= uint64(c&127) << (7 * i)
			if c < 128 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		tag, ok := varint()
		if !ok {
			return nil, fmt.Errorf("cut field")
		}
		n, ok := varint()
		if !ok {
			return nil, fmt.Errorf("cut field")
		}
		switch tag & 7 {
		case 0:
		case 2:
			if n > uint64(len(b)) {
				return nil, fmt.Errorf("cut field")
			}
			if tag>>3 == 6 { // string table
				o[string(b[:n])] = true
			}
			b = b[n:]
		default:
			return nil, fmt.Errorf("field of kind %d", tag&7)
		}
	}
	return o, nil
}

func runC32(r *mc.R) {
	base := plan{Tot: 6, TotTest: 4, Batch: 2, Epoch: 2, Step: 2, Rehash: 4, Rebuild: 6, Mode: 4, Layers: 2, TrainLines: 6, TestLines: 5}
	plans := []plan{base}
	add := func(f func(p *plan)) {
		p := base
		f(&p)
		plans = append(plans, p)
	}
	add(func(p *plan) { p.Epoch = 0 })
	add(func(p *plan) { p.Epoch = 1; p.Tot, p.TrainLines, p.TotTest, p.TestLines = 0, 0, 0, 0 })
	add(func(p *plan) { p.Epoch = 1; p.Tot = 1; p.Mode = 1 })
	add(func(p *plan) { p.Epoch = 3; p.Tot, p.TrainLines, p.Step, p.Layers = 40, 35, 3, 1 })
	if r.Thorough() {
		for e := 0; e <= 3; e++ {
			for tot := 0; tot <= 9; tot++ {
				for mode := 1; mode <= 4; mode++ {
					add(func(p *plan) { p.Epoch, p.Tot, p.TrainLines, p.Mode, p.Layers = e, tot, tot, mode, 1+tot%3 })
				}
			}
		}
	}
	names := map[string]string{"cpu": "cpu.prof", "mem": "mem.prof"}
	mark := map[string]string{"cpu": "cpu", "mem": "inuse_space"}
	for _, p := range plans {
		p := p
		r.Case(p.key(), func() {
			tr, te, want, _, _ := p.texts()
			train, test := put("train.txt", tr), put("test.txt", te)
			olds := []string{"", "x", string(bytes.Repeat([]byte("old "), 1<<16))}
			for sw := 0; sw < 4; sw++ {
				on := map[string]bool{"cpu": sw&1 != 0, "mem": sw&2 != 0}
				for oc, oldCpu := range olds {
					for om, oldMem := range olds {
						old := map[string]string{"cpu": oldCpu, "mem": oldMem}
						for k, n := range names {
							os.Remove(filepath.Join(scratch(), n))
							if old[k] != "" {
								put(n, old[k])
							}
						}
						cfg := p.config(train, test)
						cfg["CpuProfile"], cfg["MemProfile"] = on["cpu"], on["mem"]
						b, _ := json.Marshal(cfg)
						o := start([]string{put("config.json", string(b))}, "")
						r.Eval()
						r.Step(len(o.calls))
						what := fmt.Sprintf("CpuProfile %v, MemProfile %v, old files of %d and %d bytes", on["cpu"], on["mem"], len(oldCpu), len(oldMem))
						if o.hung || o.status != 0 {
							r.Failf("%s: exit status %d: %s", what, o.status, tail(o.stderr))
						}
						if d := diffCalls(o.calls, want); d != "" {
							r.Failf("%s: %s", what, d)
						}
						for k, n := range names {
							data, err := os.ReadFile(filepath.Join(scratch(), n))
							if !on[k] {
								if (err == nil) != (old[k] != "") || err == nil && string(data) != old[k] {
									r.Failf("%s: %s is touched", what, n)
								}
								continue
							}
							if err != nil {
								r.Failf("%s: %v", what, err)
							}
							s, err := profile(data)
							if err != nil || !s[mark[k]] {
								r.Failf("%s: %s (%d bytes) is no complete %s profile: %v", what, n, len(data), k, err)
							}
						}
						r.State(p.key(), sw, oc, om)
					}
				}
			}
			for _, n := range names {
				os.Remove(filepath.Join(scratch(), n))
			}
		})
	}
}
