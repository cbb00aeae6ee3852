package main

import (
	"fmt"
	"path/filepath"
)

// driver replaces the network package by one that records its calls.
func driver(repo, work string) {
	rep := map[string]string{}
	files := sources(filepath.Join(repo, "network"))
	if len(files) == 0 {
		die("no network package")
	}
	for i, f := range files {
		dst := filepath.Join(work, "network", fmt.Sprintf("f%d.go", i))
		if i == 0 {
			write(dst, fakeNetwork)
		} else {
			write(dst, "package network\n")
		}
		rep[f] = dst
	}
	writeJSON(filepath.Join(work, "overlay-main.json"), map[string]interface{}{"Replace": rep})
	writeJSON(filepath.Join(work, "gen.json"), map[string]string{})
}

const fakeNetwork = `package network

import (
	"encoding/json"
	"os"
	"runtime"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/node"
)

type Network struct {
	CowId   int
	Trained int
	Id      int
}

type call struct {
	Op       string
	Cow      int
	Net      int
	Trained  int
	Iter     int
	Rehash   bool
	Rebuild  bool
	Examples []dataset.Example
	Args     []interface{}
	Files    int // open files
	Heap     int64 // live heap
	Tasks    int // goroutines
}

var (
	out  *os.File
	nets int
	preds int
)

func record(c call) {
	if out == nil {
		f, err := os.OpenFile(os.Getenv("VERIF_REC"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
		if err != nil {
			panic(err)
		}
		out = f
	}
	switch os.Getenv("VERIF_MEASURE") {
	case "files": // no collection, which would close forgotten files
		d, _ := os.ReadDir("/proc/self/fd")
		c.Files = len(d)
	case "memory":
		if c.Op != "predict" {
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			c.Heap, c.Tasks = int64(m.HeapAlloc), runtime.NumGoroutine()
		}
	}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	out.Write(append(b, '\n'))
	recorded++
	fault()
}

var recorded int

// fault changes a file after a given number of calls.
func fault() {
	f := strings.Split(os.Getenv("VERIF_FAULT"), "|")
	if len(f) != 4 {
		return
	}
	if k, _ := strconv.Atoi(f[0]); k != recorded {
		return
	}
	var err error
	switch f[1] {
	case "remove":
		err = os.Remove(f[2])
	case "replace":
		err = os.Rename(f[3], f[2])
	case "directory":
		if err = os.Remove(f[2]); err == nil {
			err = os.Mkdir(f[2], 0o700)
		}
	}
	if err != nil {
		panic("HARNESS-BUG: " + err.Error())
	}
}

func New(cowId int, numOfLayers int, sizesOfLayers []int, layerTypes []node.NodeType, batchSize int,
	learningRate float64, inputDim int, k []int, l []int, rangePow []int, sparsity []float64) *Network {
	record(call{Op: "new", Cow: cowId, Args: []interface{}{numOfLayers, sizesOfLayers, layerTypes, batchSize, learningRate,
		inputDim, k, l, rangePow, sparsity}})
	nets++
	return &Network{CowId: cowId, Id: nets}
}

func (n *Network) own(cowId int) *Network {
	if n.CowId == cowId {
		return n
	}
	nets++
	return &Network{CowId: cowId, Trained: n.Trained, Id: nets}
}

func (ne *Network) PredictClass(cowId int, examples []dataset.Example) (int, *Network) {
	n := ne.own(cowId)
	if len(examples) == 0 {
		return 0, n // whether nothing is predicted at all is not recorded
	}
	record(call{Op: "predict", Cow: cowId, Net: n.Id, Trained: n.Trained, Examples: examples})
	correct := (preds*5 + 3) % (len(examples) + 1)
	preds++
	return correct, n
}

func (ne *Network) ProcessInput(cowId int, examples []dataset.Example, iter int, rehash bool, rebuild bool) (float64, *Network) {
	n := ne.own(cowId)
	record(call{Op: "train", Cow: cowId, Net: n.Id, Trained: n.Trained, Iter: iter, Rehash: rehash, Rebuild: rebuild, Examples: examples})
	n.Trained++
	return 0, n
}
`
