package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
)

// ---------------------------------------------------------------- what python makes of sources and compiled files

var pycProc struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func pycAsk(q J) J {
	pycProc.mu.Lock()
	defer pycProc.mu.Unlock()
	if pycProc.cmd == nil {
		cmd := exec.Command("python3", "-I", "-S", filepath.Join(os.Getenv("VERIF_BIN"), "pychelp.py"))
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		must(err)
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		pycProc.cmd, pycProc.in, pycProc.out = cmd, in, bufio.NewReader(out)
	}
	bs, err := json.Marshal(q)
	must(err)
	_, err = pycProc.in.Write(append(bs, '\n'))
	must(err)
	line, err := pycProc.out.ReadBytes('\n')
	must(err)
	var ev J
	dec := json.NewDecoder(bytes.NewReader(line))
	dec.UseNumber()
	must(dec.Decode(&ev))
	return ev
}

// tempTMPDIR sets TMPDIR, and returns a function that sets it back.
func tempTMPDIR(d string) func() {
	old, had := os.LookupEnv("TMPDIR")
	must(os.Setenv("TMPDIR", d))
	return func() {
		if had {
			must(os.Setenv("TMPDIR", old))
		} else {
			must(os.Unsetenv("TMPDIR"))
		}
	}
}

// pySource describes a source that is installed as name (without the leading slash).
func pySource(name string, src []byte, opts ...int) J {
	if len(opts) == 0 {
		opts = []int{0}
	}
	return pycAsk(J{"k": "src", "opts": opts, "name": "/" + name, "b": base64.StdEncoding.EncodeToString(src)})
}

func pyCompiled(bs []byte) J {
	ev := pycAsk(J{"k": "pyc", "b": base64.StdEncoding.EncodeToString(bs)})
	fc, ab := comps(ascii(ev["file"].(string)))
	ev["file"], ev["fab"] = fc, ab
	return ev
}

// ---------------------------------------------------------------- cases

type PySrc struct {
	N string `json:"n"`
	D string `json:"d"`
	T int64  `json:"t"`
}

// PycCase is the use of one external compiler for several sets of sources, one after the other or at once.
type PycCase struct {
	Sets  [][]PySrc `json:"sets"`
	Clamp int64     `json:"clamp"`
	How   string    `json:"how"`   // "": compileall, "fail": exits 1 afterwards, "none": no such command, "empty": no command, "kill": kills itself
	Inval string    `json:"inval"` // --invalidation-mode
	PP    []string  `json:"pp"`
	Par   bool      `json:"par"`
	Spare int       `json:"spare"` // spare capacity of the command line
	Early bool      `json:"early"` // canceled before
	Env   []string  `json:"env"`   // PYTHONPATH, SOURCE_DATE_EPOCH and PYTHONHASHSEED of the caller
	NoTmp bool      `json:"notmp"` // there is no place for temporary files
	Opts  []int     `json:"opts"`  // optimization levels; empty: compileall's default
}

const pycWrapper = `#!/bin/sh
# stand-in for the compiler: notes its environment, then compiles
for last; do :; done
{ printf '%s\n' "${PYTHONPATH-}" | sed "s#$last#@#g"; printf '%s\n' "${SOURCE_DATE_EPOCH-unset}" "${PYTHONHASHSEED-unset}"; } >"$VERIF_PYC_LOG/$(basename "$last").log"
python3 "$@" || exit
[ ! -e "$VERIF_PYC_LOG/fail" ] || exit 1
[ ! -e "$VERIF_PYC_LOG/kill" ] || kill -9 $$
`

func execPyc(raw json.RawMessage) interface{} {
	var c PycCase
	must(json.Unmarshal(raw, &c))
	d := scratchDir()
	defer dropDir(d)
	tmp, logs := filepath.Join(d, "tmp"), filepath.Join(d, "logs")
	must(os.Mkdir(tmp, 0o777))
	must(os.Mkdir(logs, 0o777))
	must(os.Setenv("VERIF_PYC_LOG", logs))
	host := ""
	for i, k := range []string{"PYTHONPATH", "SOURCE_DATE_EPOCH", "PYTHONHASHSEED"} {
		must(os.Unsetenv(k))
		defer os.Unsetenv(k)
		if i < len(c.Env) && c.Env[i] != "" {
			must(os.Setenv(k, c.Env[i]))
			if i == 0 {
				host = c.Env[i]
			}
		}
	}
	w := filepath.Join(d, "compiler")
	must(os.WriteFile(w, []byte(pycWrapper), 0o755))
	if c.How == "fail" || c.How == "kill" {
		must(os.WriteFile(filepath.Join(logs, c.How), nil, 0o644))
	}
	line := []string{w, "-m", "compileall", "-q"}
	if c.Inval != "" {
		line = append(line, "--invalidation-mode", c.Inval)
	}
	for _, o := range c.Opts {
		line = append(line, "-o", fmt.Sprint(o))
	}
	opts := c.Opts
	if len(opts) == 0 {
		opts = []int{0}
	}
	switch c.How {
	case "none":
		line[0] = filepath.Join(d, "nosuch")
	case "empty":
		line = nil
	}
	full := make([]string, len(line), len(line)+c.Spare)
	copy(full, line)
	ev := J{"k": "pyc", "made": true, "host": host, "notmp": c.NoTmp, "how": c.How, "inval": c.Inval, "clamp": c.Clamp, "early": c.Early, "pp": c.PP, "opts": opts, "left": []string{}}
	comp, err := python.ExternalCompiler(full...)
	sets := []J{}
	if err != nil {
		ev["made"] = false
		ev["sets"] = sets
		return ev
	}
	var clamp time.Time
	if c.Clamp != 0 {
		clamp = time.Unix(c.Clamp, 0)
	}
	type res struct {
		refs []fsutil.FileReference
		err  error
	}
	results := make([][2]res, len(c.Sets))
	one := func(i, k int) {
		var in []fsutil.FileReference
		for _, s := range c.Sets[i] {
			in = append(in, &fsutil.InMemFileReference{
				FileInfo:  plainInfo{name: path.Base(s.N), size: int64(len(s.D)), mode: 0o644, mt: time.Unix(s.T, 0)},
				MFullName: s.N, MContent: []byte(s.D),
			})
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if c.Early {
			cancel()
		}
		refs, err := comp(ctx, clamp, c.PP, in)
		results[i][k] = res{refs, err}
	}
	at := tmp
	if c.NoTmp {
		at = filepath.Join(tmp, "nosuch")
	}
	restore := tempTMPDIR(at)
	for k := 0; k < 2; k++ {
		var wg sync.WaitGroup
		for i := range c.Sets {
			if c.Par {
				wg.Add(1)
				go func(i int) { defer wg.Done(); one(i, k) }(i)
			} else {
				one(i, k)
			}
		}
		wg.Wait()
	}
	restore()
	for i, set := range c.Sets {
		srcs := []J{}
		for _, s := range set {
			sc, _ := comps(s.N)
			srcs = append(srcs, J{"c": sc, "s": s.T, "size": fmt.Sprint(len(s.D)), "py": pySource(s.N, []byte(s.D), opts...)})
		}
		runs := []J{}
		for k := 0; k < 2; k++ {
			r := results[i][k]
			run := J{"err": "", "out": []J{}, "sum": ""}
			if r.err != nil {
				run["err"] = "x" + ascii(r.err.Error())
			}
			out := []J{}
			all := []string{}
			for _, f := range r.refs {
				rc, err := f.Open()
				must(err)
				bs, err := io.ReadAll(rc)
				must(err)
				oc, _ := comps(f.FullName())
				out = append(out, J{"c": oc, "s": f.ModTime().Unix(), "mode": int(f.Mode()), "size": fmt.Sprint(f.Size()), "len": fmt.Sprint(len(bs)), "py": pyCompiled(bs)})
				all = append(all, f.FullName()+" "+hash8(bs))
			}
			run["out"] = out
			run["sum"] = hash8([]byte(strings.Join(all, "\n")))
			runs = append(runs, run)
		}
		sets = append(sets, J{"srcs": srcs, "runs": runs})
	}
	ev["sets"] = sets
	envs := []J{}
	les, err := os.ReadDir(logs)
	must(err)
	for _, e := range les {
		if !strings.HasSuffix(e.Name(), ".log") {
			continue
		}
		bs, err := os.ReadFile(filepath.Join(logs, e.Name()))
		must(err)
		ls := strings.Split(string(bs), "\n")
		if len(ls) < 3 {
			continue // killed before it wrote them
		}
		envs = append(envs, J{"pp": ascii(ls[0]), "sde": ascii(ls[1]), "seed": ascii(ls[2])})
	}
	ev["envs"] = envs
	tes, err := os.ReadDir(tmp)
	must(err)
	left := []string{}
	for _, e := range tes {
		left = append(left, e.Name())
	}
	ev["left"] = left
	return ev
}

var pycTexts = []string{"", "x = 1\n", "import os\n\ndef f():\n    return 3\n", "# -*- coding: latin-1 -*-\ns = 'x'\n", "class A:\n    def g(self, a, *b, **c):\n        return lambda: a\n",
	"pass", "S = {'b', 'a', 'c', 'd'}\ndef h(x):\n    return x in {'q', 'w', 'e', 'r', 't', 'y'}\n", "#!/usr/bin/python3\nprint('hi')\n", "x = (1, 2.5, 'a', b'b', None, ..., 3j)\n", "\"\"\"doc\"\"\"\nassert x\n",
	"async def f():\n    yield 1\n", "x = 1\r\ny = 2\r\n", "from . import z\n", "\ufeffx = 1\n"}

var pycBad = []string{"def f(:\n", "x = (\n", "  x = 1\n", "return 3\n", "\x00", "print 'x'\n", "# coding: nosuch\n"}

func genPyc(rng *rand.Rand, _ int) interface{} {
	c := PycCase{PP: []string{}}
	if !chance(rng, 5) {
		c.Clamp = []int64{1, 1500000000, 1234567890, 1700000000, 2100000000}[rng.Intn(5)]
	}
	dirs := []string{"", "usr/lib/python3/site-packages/", "a/", "a/b/", "a/b.c/", "x y/", "opt/p-q/r/", "usr/bin/"}
	bases := []string{"m.py", "n.py", "__init__.py", "a b.py", "x.y.py", "Mod.py", "mod.py", "d-e.py", ".h.py", "0.py", "py.py", "m.opt-1.py", "m.pyc.py", "m.cpython-312.py", "py", "m.pyi", "m.txt", "m.pyx", "m.PY"}
	n := 1
	if chance(rng, 3) {
		n = 2 + rng.Intn(3)
	}
	for i := 0; i < n; i++ {
		set := []PySrc{}
		have := map[string]bool{}
		for k := rng.Intn(5); k >= 0; k-- {
			nm := dirs[rng.Intn(len(dirs))] + bases[rng.Intn(len(bases))]
			if have[nm] {
				continue
			}
			have[nm] = true
			d := pycTexts[rng.Intn(len(pycTexts))]
			if chance(rng, 25) {
				d = pycBad[rng.Intn(len(pycBad))]
			}
			set = append(set, PySrc{N: nm, D: d, T: []int64{0, 1, 999999999, 1500000000, 1600000001, 2000000000}[rng.Intn(6)]})
		}
		c.Sets = append(c.Sets, set)
	}
	c.Par = n > 1 && chance(rng, 2)
	c.Spare = rng.Intn(3) * 8
	if chance(rng, 12) {
		c.How = []string{"fail", "none", "empty", "kill"}[rng.Intn(4)]
	}
	if chance(rng, 5) {
		c.Inval = []string{"timestamp", "checked-hash", "unchecked-hash"}[rng.Intn(3)]
	}
	for _, p := range []string{"usr/lib/python3/site-packages", "a", "x y"} {
		if chance(rng, 3) {
			c.PP = append(c.PP, p)
		}
	}
	c.Early = chance(rng, 30)
	c.NoTmp = chance(rng, 60)
	c.Env = []string{}
	if chance(rng, 3) {
		c.Env = []string{pick(rng, "", "/nosuch/x", "/nosuch/a:/nosuch/b"), "", pick(rng, "", "7", "random")}
		if c.Clamp != 0 {
			c.Env[1] = pick(rng, "", "1", "1600000000")
		}
	}
	c.Opts = [][]int{nil, nil, nil, {0}, {1}, {2}, {0, 1}, {0, 1, 2}, {0, 2}}[rng.Intn(9)]
	return c
}

func init() {
	suites["pyc"] = &Suite{Gen: genPyc, Exec: execPyc}
}
