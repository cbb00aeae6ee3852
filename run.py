#!/usr/bin/env python3
"""Builds the harness for one property against the working tree of /repo and runs it.

usage: run.py PROPERTY [quick|thorough]        run the check
       run.py PROPERTY --replay FILE           run the case recorded in FILE only
       run.py --setup                          build everything once (warms the build cache)

REPO in the environment selects another source tree (for experiments only).
Exit status: 0 held, 1 violated, 2 the harness could not decide.
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
MODULE = "github.com/nlpodyssey/goslide"

GROUPS = {
    "vhash": ["C01", "C02", "C03", "C04", "C05", "C06", "C07"],
    "vconc": ["C08"],
    "vcow": ["C22"],
    "vnet": ["C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C23", "C24", "C25", "C27", "C28", "C30", "C33"],
    "vprog": ["C29"],
    "vio": ["C17", "C18", "C19"],
    "vdrv": ["C20", "C21", "C26", "C31", "C32"],
}


def goenv():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", GO111MODULE="on")
    if os.path.isdir("/usr/local/go/bin"):
        e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    return e


ENV = goenv()


def fail(msg):
    print("harness failure: " + msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def patch(text, pairs, name):
    for pat, rep in pairs:
        text, n = re.subn(pat, rep, text, flags=re.M)
        if n == 0:
            fail("pattern not found in %s: %s" % (name, pat))
    return text


def std_overlay(goroot, work):
    """Copies of standard library files in which the environment can be decided by the explorer."""
    rep = {}

    def put(rel, text):
        src = os.path.join(goroot, "src", rel)
        dst = os.path.join(work, "std", rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "w") as f:
            f.write(text)
        rep[src] = dst

    def get(rel):
        with open(os.path.join(goroot, "src", rel)) as f:
            return f.read()

    # math/rand: every draw asks VerifHook when it is set.
    t = get("math/rand/rand.go")
    H = "\tif VerifHook != nil {\n\t\treturn %s\n\t}\n"
    t = patch(t, [
        (r"^func \(r \*Rand\) Int63\(\) int64 \{ return r.src.Int63\(\) \}",
         "func (r *Rand) Int63() int64 {\n" + H % "int64(VerifHook.Bits() & (1<<63 - 1))" + "\treturn r.src.Int63()\n}"),
        (r"^(func \(r \*Rand\) Uint64\(\) uint64 \{\n)", r"\1" + H % "VerifHook.Bits()"),
        (r"^(func \(r \*Rand\) Int63n\(n int64\) int64 \{\n)", r"\1" + "\tif VerifHook != nil && n > 0 {\n\t\treturn VerifHook.Intn(n)\n\t}\n"),
        (r"^(func \(r \*Rand\) (?:Int31n|int31n)\(n int32\) int32 \{\n)", r"\1" + "\tif VerifHook != nil && n > 0 {\n\t\treturn int32(VerifHook.Intn(int64(n)))\n\t}\n"),
        (r"^(func \(r \*Rand\) Intn\(n int\) int \{\n)", r"\1" + "\tif VerifHook != nil && n > 0 {\n\t\treturn int(VerifHook.Intn(int64(n)))\n\t}\n"),
        (r"^(func \(r \*Rand\) Float64\(\) float64 \{\n)", r"\1" + H % "VerifHook.Float()"),
        (r"^(func \(r \*Rand\) Seed\(seed int64\) \{\n)", r"\1" + "\tif VerifHook != nil {\n\t\tVerifHook.Seed(seed)\n\t\treturn\n\t}\n"),
        (r"^(func Seed\(seed int64\) \{\n)", r"\1" + "\tif VerifHook != nil {\n\t\tVerifHook.Seed(seed)\n\t\treturn\n\t}\n"),
        (r"^(func NewSource\(seed int64\) Source \{\n)", r"\1" + "\tif VerifHook != nil {\n\t\tVerifHook.Seed(seed)\n\t}\n"),
    ], "math/rand/rand.go")
    t = t.replace('import (\n', 'import (\n\t"internal/runtime/maps"\n', 1)
    t += """
// VerifSource decides the random draws of the program under test.
type VerifSource interface {
	Intn(n int64) int64
	Bits() uint64
	Norm() float64
	Float() float64
	Seed(seed int64)
}

// VerifHook, when set, answers every draw.
var VerifHook VerifSource

// VerifMapOrder fixes the starting point of map iterations.
func VerifMapOrder(on bool, offset uint64) {
	maps.VerifIterOn = on
	maps.VerifIterOffset = offset
}
"""
    put("math/rand/rand.go", t)
    t = get("math/rand/normal.go")
    t = patch(t, [(r"^(func \(r \*Rand\) NormFloat64\(\) float64 \{\n)", r"\1" + H % "VerifHook.Norm()")], "normal.go")
    put("math/rand/normal.go", t)

    # hash/maphash: seeds and hash values.
    rel = "hash/maphash/maphash.go"
    t = get(rel)
    t = patch(t, [
        (r"^(func rthash\(buf \[\]byte, seed uint64\) uint64 \{\n)", r"\1" + "\tif VerifHash != nil {\n\t\treturn VerifHash(buf, seed)\n\t}\n"),
        (r"^(func randUint64\(\) uint64 \{\n)", r"\1" + "\tif VerifSeed != nil {\n\t\treturn VerifSeed()\n\t}\n"),
    ], rel)
    t += """
// VerifHash and VerifSeed, when set, decide hash values and seeds.
var (
	VerifHash func(buf []byte, seed uint64) uint64
	VerifSeed func() uint64
)
"""
    put(rel, t)

    # maps: iteration order.
    rel = "internal/runtime/maps/table.go"
    t = patch(get(rel), [(r"it\.entryOffset = rand\(\)\n\tit\.dirOffset = rand\(\)",
                          "it.entryOffset = verifOffset(rand())\n\tit.dirOffset = verifOffset(rand())")], rel)
    t += """
// VerifIterOn and VerifIterOffset decide where map iterations start.
var (
	VerifIterOn     bool
	VerifIterOffset uint64
)

func verifOffset(r uint64) uint64 {
	if VerifIterOn {
		return VerifIterOffset
	}
	return r
}
"""
    put(rel, t)
    # seeds of maps on the stack come from compiler-generated calls of rand
    rel = "runtime/rand.go"
    put(rel, patch(get(rel), [(r"^(func rand\(\) uint64 \{\n)", r"\1" + "\tif maps.VerifIterOn {\n\t\treturn 0x9E3779B97F4A7C15\n\t}\n"),
                              (r"^import \(\n", 'import (\n\t"internal/runtime/maps"\n')], rel))
    rel = "internal/runtime/maps/map.go"
    put(rel, patch(get(rel), [(r"m\.seed = uintptr\(rand\(\)\)", "m.seed = uintptr(0x9E3779B9)")], rel))
    rel = "internal/runtime/maps/runtime_alg.go"
    put(rel, patch(get(rel), [(r"\bbootstrapRand\(\)(?=\)?$)", "verifKey()"), (r"\Z", """
var verifKeyState uint64

// verifKey makes the process's hash keys the same in every run.
func verifKey() uint64 {
	verifKeyState += 0x9E3779B97F4A7C15
	return verifKeyState
}
""")], rel))
    dst = os.path.join(work, "std", "runtime_verif.go")
    with open(dst, "w") as f:
        f.write("package runtime\n\n// VerifGoid is the number of the calling goroutine.\nfunc VerifGoid() uint64 { return getg().goid }\n")
    rep[os.path.join(goroot, "src", "runtime", "verif.go")] = dst
    return rep


SOURCES = {"vcow": "vnet", "vprog": "vnet"}


# Answers the random draws of the real program like env.Fixed does in the harness.
STREAM = """package main

import (
	"hash/maphash"
	"math/rand"
	"os"
	"strconv"
	"time"
)

type verifStream struct {
	state uint64
	seeds map[int64]uint64
}

// A seed met again gives the same draws again; see env.Source.
func (s *verifStream) Seed(seed int64) {
	if d := seed - time.Now().UnixNano(); d < 3600e9 && d > -3600e9 {
		return
	}
	if old, ok := s.seeds[seed]; ok {
		s.state = old
		return
	}
	if s.seeds == nil {
		s.seeds = map[int64]uint64{}
	}
	s.seeds[seed] = s.state
}

func (s *verifStream) next() uint64 {
	s.state += 0x9E3779B97F4A7C15
	z := s.state
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (s *verifStream) Intn(n int64) int64 { return int64(s.next() % uint64(n)) }
func (s *verifStream) Bits() uint64       { return s.next() }
func (s *verifStream) Norm() float64      { return s.Float()*200 - 100 }
func (s *verifStream) Float() float64     { return float64(s.next()>>11) / (1 << 53) }

func init() {
	seed, err := strconv.ParseUint(os.Getenv("VERIF_STREAM"), 10, 64)
	if err != nil {
		panic(err)
	}
	s := &verifStream{state: seed * 1000003}
	rand.VerifHook = s
	maphash.VerifSeed = func() uint64 { return s.Bits() | 1 }
	rand.VerifMapOrder(true, s.state*0x9E3779B97F4A7C15>>40)
}
"""


def build(group, work, tags=()):
    goroot = run(["go", "env", "GOROOT"], HARNESS).stdout.strip()
    rep = std_overlay(goroot, work)
    modfile = os.path.join(work, "go.mod")
    with open(os.path.join(HARNESS, "go.mod")) as f:
        m = f.read()
    with open(modfile, "w") as f:
        f.write(m.replace("=> /repo", "=> " + REPO))
    open(os.path.join(work, "go.sum"), "w").close()
    std = os.path.join(work, "overlay-std.json")
    with open(std, "w") as f:
        json.dump({"Replace": rep}, f)
    if group in ("vconc", "vcow", "vdrv"):
        gen = os.path.join(work, "ovgen")
        p = run(["go", "build", "-modfile", modfile, "-o", gen, "./cmd/ovgen"], HARNESS)
        if p.returncode:
            fail("building ovgen:\n" + p.stdout)
        p = run([gen, group, REPO, work], HARNESS)
        if p.returncode:
            fail("ovgen:\n" + p.stdout)
        with open(os.path.join(work, "gen.json")) as f:
            rep.update(json.load(f))
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    out = os.path.join(work, group)
    p = run(["go", "build", "-modfile", modfile, "-overlay", ov, "-o", out, "./cmd/" + SOURCES.get(group, group)], HARNESS)
    if p.returncode:
        fail("building %s:\n%s" % (group, p.stdout[-4000:]))
    if group == "vdrv":
        p = run(["go", "build", "-modfile", modfile, "-overlay", os.path.join(work, "overlay-main.json"),
                 "-o", os.path.join(work, "driver"), MODULE], HARNESS)
        if p.returncode:
            fail("building the driver:\n" + p.stdout[-4000:])
    if group == "vprog":
        with open(os.path.join(work, "stream.go"), "w") as f:
            f.write(STREAM)
        rep[os.path.join(REPO, "zz_verif_stream.go")] = os.path.join(work, "stream.go")
        with open(os.path.join(work, "overlay-main.json"), "w") as f:
            json.dump({"Replace": rep}, f)
        p = run(["go", "build", "-modfile", modfile, "-overlay", os.path.join(work, "overlay-main.json"),
                 "-o", os.path.join(work, "program"), MODULE], HARNESS)
        if p.returncode:
            fail("building the program:\n" + p.stdout[-4000:])
    if group == "vconc":
        p = run(["go", "build", "-race", "-modfile", modfile, "-o", os.path.join(work, "vrace"), "./cmd/vrace"], HARNESS)
        if p.returncode:
            fail("building vrace:\n" + p.stdout[-4000:])
    if group == "vcow":
        p = run(["go", "build", "-race", "-modfile", modfile, "-overlay", std, "-o", os.path.join(work, "vcowrace"), "./cmd/vnet"], HARNESS)
        if p.returncode:
            fail("building vcowrace:\n" + p.stdout[-4000:])
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "--setup":
        for g in GROUPS:
            if os.path.isdir(os.path.join(HARNESS, "cmd", SOURCES.get(g, g))):
                with tempfile.TemporaryDirectory(prefix="goslide-verif-") as work:
                    build(g, work)
        print("built")
        return
    prop = sys.argv[1]
    group = next((g for g, ps in GROUPS.items() if prop in ps), None)
    if group is None:
        fail("unknown property " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    rest = sys.argv[2:]
    if rest and rest[0] == "--replay":
        with open(rest[1]) as f:
            v = json.load(f)
        tier, extra = v["tier"], ["-only", v["case"]]
    elif rest:
        tier = rest[0]
    with tempfile.TemporaryDirectory(prefix="goslide-verif-") as work:
        exe = build(group, work)
        p = subprocess.run([exe, "-prop", prop, "-tier", tier, "-verif", VERIF, "-work", work] + extra,
                           cwd=work, env=ENV)
    sys.exit(p.returncode if p.returncode in (0, 1) else 2)


main()
