package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/gobuild"
)

// GoLayerCase is one use of the Go compiler.
type GoLayerCase struct {
	Nodes []Node   `json:"nodes"`
	Pkgs  []string `json:"pkgs"`
	Env   []string `json:"env"` // GOOS etc. of the caller
	RC    int      `json:"rc"`
	Via   string   `json:"via"` // api, cli, file (-o), real (the real compiler)
	CS    int64    `json:"cs"`
	Early bool     `json:"early"` // canceled before (api)
	Noise bool     `json:"noise"`
	None  bool     `json:"none"` // no compiler
	Text  string   `json:"text"` // of the real program
}

const recordingGo = `#!/bin/bash
# stands in for the Go compiler: notes how it is called and "builds" what FAKEGO_SRC holds
out= prev=
for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
{ echo "$GOOS"; echo "$GOARCH"; echo "${CGO_ENABLED-unset}"; echo "${GOFLAGS-unset}"; pwd -P; printf '%s\n' "$@"; } >"$FAKEGO_LOG"
[ -z "$FAKEGO_NOISE" ] || { echo noise; echo noise >&2; }
cp -a "$FAKEGO_SRC"/. "$out"/ || exit 9
exit $FAKEGO_RC
`

func genGoLayer(rng *rand.Rand, i int) interface{} {
	c := GoLayerCase{Env: []string{}, Via: []string{"api", "cli", "cli", "file"}[rng.Intn(4)], CS: []int64{1, 1500000000, 1234567890}[rng.Intn(3)], Nodes: []Node{}}
	if i%500 == 7 {
		c.Via, c.Text = "real", fmt.Sprint("hello ", rng.Intn(1000))
		c.Pkgs = []string{"./prog"}
		return c
	}
	names := []string{"prog", "another", "a-b", "a.b", "Z", "0", "x y"}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for k := rng.Intn(4); k >= 0; k-- {
		c.Nodes = append(c.Nodes, Node{C: []string{names[k]}, T: "reg", Ino: k + 1, Mode: []int{0o755, 0o755, 0o700, 0o644}[rng.Intn(4)], S: []int64{1000000000, 1900000000, 1}[rng.Intn(3)],
			UID: rng.Intn(2) * 7, GID: rng.Intn(2) * 8, Data: fmt.Sprint("d", rng.Intn(9)), Len: []int{0, 5, 600, 1024}[rng.Intn(4)]})
	}
	for k := rng.Intn(3); k >= 0; k-- {
		c.Pkgs = append(c.Pkgs, []string{"./x", "./...", "example.com/p/q", "-weird", "./a b", "main.go", "--", "x@v1.2.3", "-o"}[rng.Intn(9)])
	}
	if c.Pkgs[len(c.Pkgs)-1] == "-o" {
		c.Pkgs = append(c.Pkgs, "x")
	}
	for _, p := range c.Pkgs { // confuses the stand-in
		if p == "-o" {
			c.Pkgs = []string{"./x", "./y"}
			break
		}
	}
	for _, e := range []string{"GOOS=windows", "GOOS=darwin", "GOARCH=arm64", "GOARCH=s390x", "CGO_ENABLED=0", "GOFLAGS=-mod=mod -v"} {
		if chance(rng, 4) {
			c.Env = append(c.Env, e)
		}
	}
	if chance(rng, 6) {
		c.RC = 1 + rng.Intn(2)
	}
	c.Noise = chance(rng, 2)
	c.Early = c.Via == "api" && chance(rng, 8)
	c.None = chance(rng, 15)
	return c
}

func execGoLayer(raw json.RawMessage) interface{} {
	var c GoLayerCase
	decode(raw, &c)
	d := scratchDir()
	defer dropDir(d)
	for _, s := range []string{"bin", "tmp", "out", "src", "cwd", "empty"} {
		must(os.Mkdir(filepath.Join(d, s), 0o755))
	}
	if c.Via == "real" {
		return c.execReal(d)
	}
	makeTree(filepath.Join(d, "src"), c.Nodes)
	if !c.None {
		must(os.WriteFile(filepath.Join(d, "bin/go"), []byte(recordingGo), 0o755))
	}
	log := filepath.Join(d, "log")
	pathv := filepath.Join(d, "bin") + ":/usr/bin:/bin"
	env := map[string]string{"SOURCE_DATE_EPOCH": fmt.Sprint(c.CS), "TMPDIR": filepath.Join(d, "tmp"), "PATH": pathv, "FAKEGO_SRC": filepath.Join(d, "src"), "FAKEGO_RC": fmt.Sprint(c.RC), "FAKEGO_LOG": log, "FAKEGO_NOISE": ""}
	if c.Noise {
		env["FAKEGO_NOISE"] = "1"
	}
	want := map[string]string{"CGO_ENABLED": "unset", "GOFLAGS": "unset"}
	for _, kv := range c.Env {
		p := strings.SplitN(kv, "=", 2)
		env[p[0]] = p[1]
		want[p[0]] = p[1]
	}
	for _, k := range []string{"GOOS", "GOARCH", "CGO_ENABLED", "GOFLAGS"} {
		must(os.Unsetenv(k))
	}
	o := DirOpts{Prefix: "usr/local/bin", PUN: "root", PGN: "root", ChOwn: true, CUN: "root", CGN: "root", CS: c.CS}.j()
	o["pre"] = []string{"usr", "local", "bin"}
	ev := J{"k": "golayer", "via": c.Via, "works": c.RC == 0 && !c.Early && !c.None, "none": c.None, "early": c.Early, "nodes": nodesJ(c.Nodes), "o": o, "pkgs": c.Pkgs, "cgo": want["CGO_ENABLED"], "flags": want["GOFLAGS"], "err": "", "ents": []J{}, "layer": false,
		"real": false, "called": false, "args": []string{}, "goos": "", "goarch": "", "sawcgo": "", "sawflags": "", "cwd": "", "sawcwd": "", "temps": []string{}}
	cwd, err := filepath.EvalSymlinks(filepath.Join(d, "cwd"))
	must(err)
	ev["cwd"] = filepath.Base(filepath.Dir(cwd)) + "/cwd"
	var bs []byte
	if c.Via == "api" {
		old, err := os.Getwd()
		must(err)
		must(os.Chdir(cwd))
		undo := []func(){}
		for k, v := range env {
			k := k
			was, had := os.LookupEnv(k)
			undo = append(undo, func() {
				if had {
					must(os.Setenv(k, was))
				} else {
					must(os.Unsetenv(k))
				}
			})
			must(os.Setenv(k, v))
		}
		ctx, cancel := context.WithCancel(context.Background())
		if c.Early {
			cancel()
		}
		layer, lerr := gobuild.LayerFromGo(ctx, time.Unix(c.CS, 0), c.Pkgs, fastLayer)
		cancel()
		for _, f := range undo {
			f()
		}
		must(os.Chdir(old))
		if lerr != nil {
			ev["err"] = "x" + ascii(lerr.Error())
			ev["layer"] = layer != nil
		} else {
			bs, lerr = layerBytes(layer)
			if lerr != nil {
				ev["err"] = "x" + ascii(lerr.Error())
			}
		}
	} else {
		args := []string{"layer", "gobuild"}
		out := filepath.Join(d, "out", "l.tar")
		if c.Via == "file" {
			args = append(args, "--output="+out)
		}
		args = append(args, "--")
		args = append(args, c.Pkgs...)
		var ee []string
		for k, v := range env {
			ee = append(ee, k+"="+v)
		}
		rc, so, se := runCLI(ee, cwd, args...)
		bs = so
		if rc != 0 {
			ev["err"] = "x" + ascii(string(se))
			ev["layer"] = len(so) > 0
		}
		if c.Via == "file" {
			ev["layer"] = ev["layer"].(bool) || len(so) > 0
			bs, err = os.ReadFile(out)
			if rc == 0 {
				must(err)
			} else {
				ev["layer"] = ev["layer"].(bool) || err == nil
			}
		}
	}
	if ev["err"] == "" {
		ents, err := outJ(bs)
		if err != nil {
			ev["err"] = "x" + ascii(err.Error())
		} else {
			ev["ents"] = ents
		}
	}
	if lb, err := os.ReadFile(log); err == nil {
		ls := strings.Split(strings.TrimSuffix(string(lb), "\n"), "\n")
		if len(ls) >= 5 {
			ev["called"], ev["goos"], ev["goarch"], ev["sawcgo"], ev["sawflags"] = true, ls[0], ls[1], ls[2], ls[3]
			ev["sawcwd"] = filepath.Base(filepath.Dir(ls[4])) + "/" + filepath.Base(ls[4])
			ev["args"] = append([]string{}, ls[5:]...)
		}
	}
	ev["temps"] = listDir(filepath.Join(d, "tmp"))
	return ev
}

// execReal builds the same program with the real compiler in two different directories.
func (c GoLayerCase) execReal(d string) interface{} {
	ev := J{"k": "golayer", "real": true, "via": "real", "err": "", "sums": []string{}, "said": "", "text": c.Text, "temps": []string{}, "names": []string{}}
	sums := []string{}
	for _, sub := range []string{"one", "another/one"} {
		m := filepath.Join(d, sub)
		must(os.MkdirAll(filepath.Join(m, "prog"), 0o755))
		must(os.WriteFile(filepath.Join(m, "go.mod"), []byte("module example.com/m\n\ngo 1.17\n"), 0o644))
		must(os.WriteFile(filepath.Join(m, "prog/main.go"), []byte(fmt.Sprintf("package main\n\nfunc main() { println(%q) }\n", c.Text)), 0o644))
		rc, so, se := runCmdLimit(10*cmdLimit, []string{"SOURCE_DATE_EPOCH=1500000000", "TMPDIR=" + filepath.Join(d, "tmp"), "GOFLAGS=-buildvcs=false", "GOWORK=off", "GOOS=windows"}, m, os.Getenv("VERIF_OCIBUILD"), "layer", "gobuild", "./prog")
		if rc != 0 {
			ev["err"] = "x" + ascii(string(se))
			break
		}
		sums = append(sums, hash8(so))
		ents, err := readTar(so)
		must(err)
		names := []string{}
		for _, e := range ents {
			names = append(names, strings.TrimSuffix(e.Hdr.Name, "/"))
			if filepath.Base(e.Hdr.Name) == "prog" {
				exe := filepath.Join(d, "exe")
				must(os.WriteFile(exe, e.Body, 0o755))
				_, _, said := runCmd(nil, d, exe)
				ev["said"] = ascii(strings.TrimSpace(string(said)))
				must(os.Remove(exe))
			}
		}
		ev["names"] = names
	}
	ev["sums"] = sums
	ev["temps"] = listDir(filepath.Join(d, "tmp"))
	return ev
}

func init() {
	suites["golayer"] = &Suite{Gen: genGoLayer, Exec: execGoLayer}
}
