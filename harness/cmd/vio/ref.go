package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
	"github.com/nlpodyssey/goslide/index_value"
)

// expected is what the reader should make of a text.
type expected struct {
	header   [3]int
	examples []dataset.Example
	errs     []error // acceptable errors (nil: the text is well-formed)
	line     int     // the malformed line
}

// lines splits a text the way the format defines: at newlines, dropping one
// carriage return before each, with no line after a final newline.
func lines(text string) []string {
	if text == "" {
		return nil
	}
	text = strings.TrimSuffix(text, "\n")
	ls := strings.Split(text, "\n")
	for i, l := range ls {
		ls[i] = strings.TrimSuffix(l, "\r")
	}
	return ls
}

func reference(text string) expected {
	var e expected
	ls := lines(text)
	bad := func() expected {
		e.errs, e.line = []error{xcrepo.ErrMalformedHeader}, 1
		return e
	}
	if len(ls) == 0 {
		return bad()
	}
	f := strings.Split(ls[0], " ")
	if len(f) != 3 {
		return bad()
	}
	var h [3]int
	for i := range f {
		n, err := strconv.Atoi(f[i])
		if err != nil || n <= 0 {
			return bad()
		}
		h[i] = n
	}
	e.header = h
	for i, l := range ls[1:] {
		ex, errs := refLine(l, h[1], h[2])
		if errs != nil {
			e.errs, e.line = errs, i+2
			return e
		}
		e.examples = append(e.examples, ex)
	}
	return e
}

// refLine parses one line; every error that describes a defect of the line is acceptable.
func refLine(l string, features, labels int) (ex dataset.Example, errs []error) {
	f := strings.Split(l, " ")
	ex.Labels = []int{}
	if f[0] != "" {
		for _, s := range strings.Split(f[0], ",") {
			n, err := strconv.Atoi(s)
			if err != nil {
				errs = append(errs, xcrepo.ErrMalformedLabels)
			} else if n < 0 || n >= labels {
				errs = append(errs, xcrepo.ErrLabelOutOfBounds)
			}
			ex.Labels = append(ex.Labels, n)
		}
	}
	if len(f) == 1 {
		errs = append(errs, xcrepo.ErrMissingFeatures)
		if l == "" {
			errs = append(errs, xcrepo.ErrNotEnoughFields)
		}
	}
	for _, s := range f[1:] {
		kv := strings.Split(s, ":")
		if len(kv) != 2 {
			errs = append(errs, xcrepo.ErrMalformedFeatures)
			continue
		}
		n, err := strconv.Atoi(kv[0])
		if err != nil {
			errs = append(errs, xcrepo.ErrMalformedFeatures)
		} else if n < 0 || n >= features {
			errs = append(errs, xcrepo.ErrFeatureIndexOutOfBounds)
		}
		v, err := strconv.ParseFloat(kv[1], 64)
		if err != nil {
			errs = append(errs, xcrepo.ErrMalformedFeatures)
		}
		ex.Features = append(ex.Features, index_value.Pair{Index: n, Value: v})
	}
	return ex, errs
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func sameExample(a, b dataset.Example) bool {
	if len(a.Labels) != len(b.Labels) || len(a.Features) != len(b.Features) {
		return false
	}
	for i := range a.Labels {
		if a.Labels[i] != b.Labels[i] {
			return false
		}
	}
	for i := range a.Features {
		if a.Features[i].Index != b.Features[i].Index || !sameFloat(a.Features[i].Value, b.Features[i].Value) {
			return false
		}
	}
	return true
}

func oneOf(err error, errs []error) bool {
	for _, e := range errs {
		if err == e {
			return true
		}
	}
	return false
}

func show(text string) string {
	if len(text) > 400 {
		return fmt.Sprintf("%q... (%d bytes)", text[:400], len(text))
	}
	return fmt.Sprintf("%q", text)
}
