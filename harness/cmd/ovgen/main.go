// ovgen writes the overlays of one harness group: ovgen GROUP REPO WORK.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(1)
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		die(err)
	}
	write(path, string(b))
}

func write(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		die(err)
	}
}

// sources lists the non-test Go files of a package directory.
func sources(dir string) []string {
	m, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		die(err)
	}
	var o []string
	for _, f := range m {
		if !strings.HasSuffix(f, "_test.go") {
			o = append(o, f)
		}
	}
	return o
}

func main() {
	group, repo, work := os.Args[1], os.Args[2], os.Args[3]
	switch group {
	case "vdrv":
		driver(repo, work)
	case "vconc", "vcow":
		concurrent(repo, work)
	default:
		die("unknown group", group)
	}
}
