package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"

	"github.com/datawire/ocibuild/pkg/dockerutil"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pyinspect"
)

func init() {
	suites["image"] = &Suite{Gen: genImage, Exec: execImage}
	suites["pipe"] = &Suite{Gen: genPipe, Exec: execPipe}
	suites["docker"] = &Suite{Gen: genDocker, Exec: execDocker}
	suites["inspect"] = &Suite{Gen: genInspect, Exec: execInspect}
}

func sha(bs []byte) string {
	s := sha256.Sum256(bs)
	return hex.EncodeToString(s[:])
}

func gz(bs []byte) []byte {
	var buf bytes.Buffer
	w, err := gzip.NewWriterLevel(&buf, gzip.BestSpeed)
	must(err)
	_, err = w.Write(bs)
	must(err)
	must(w.Close())
	return buf.Bytes()
}

func gunzip(bs []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(bs))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// serveFIFO makes a named pipe that gives the bytes once, in chunks; stop releases the writer.
func serveFIFO(p string, bs []byte, chunks []int, pause time.Duration) (stop func()) {
	must(syscall.Mkfifo(p, 0o600))
	done := make(chan struct{})
	go func() {
		defer close(done)
		f, err := os.OpenFile(p, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		rest := bs
		for _, n := range chunks {
			if n > len(rest) {
				n = len(rest)
			}
			if _, err := f.Write(rest[:n]); err != nil {
				return
			}
			rest = rest[n:]
			time.Sleep(pause)
		}
		_, _ = f.Write(rest)
	}()
	return func() {
		for {
			select {
			case <-done:
				return
			default:
			}
			fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_NONBLOCK, 0)
			if err != nil {
				return
			}
			time.Sleep(2 * time.Millisecond)
			_ = syscall.Close(fd)
		}
	}
}

// ---------------------------------------------------------------- image build

type ImgFlags struct {
	Clear  bool     `json:"clear"`
	Env    []string `json:"env"`
	HasEp  bool     `json:"hasep"`
	Ep     []string `json:"ep"`
	HasCmd bool     `json:"hascmd"`
	Cmd    []string `json:"cmd"`
	Wd     string   `json:"wd"`
}

type ImgStep struct {
	F    ImgFlags `json:"f"`
	Adds []string `json:"adds"`
	Form []string `json:"form,omitempty"` // of each layer: tar, gz, pipe
	Base string   `json:"base,omitempty"` // of the base: file, pipe
	Tag  string   `json:"tag,omitempty"`
	Long bool     `json:"long,omitempty"` // long or short names of the flags
}

type ImgCase struct {
	Steps []ImgStep              `json:"steps"`
	Base  []string               `json:"base"` // the layers of the first base; none: no base
	Gz    bool                   `json:"gz"`
	Cfg   map[string]interface{} `json:"cfg"`
	Hist  int                    `json:"hist"`
	Order int64                  `json:"order"`
	Bad   string                 `json:"bad,omitempty"`
	Cut   int                    `json:"cut,omitempty"`
}

func imgContent(id string) []byte {
	// "x" and "y" are small layers, the others are bigger, "e" is an empty archive
	if id == "e" {
		return buildTar(nil)
	}
	m := int64(id[0])
	return buildTar([]Ent{{Name: "dir-" + id, Type: "dir", Meta: m}, {Name: "dir-" + id + "/f", Type: "reg", Meta: m * 31}})
}

var envVals = []string{"A=1", "A=2", "B=", "C=x=y", "D", "E=a,b", "F=sp ace", "PATH=/x:/y", `G="q"`, "=", ""}
var argVals = [][]string{{"e"}, {"e", "f"}, {""}, {"a,b", "c d"}, {"--x", "-y"}, {"/bin/sh", "-c", "echo $A"}}

func pickStrs(rng *rand.Rand, from []string, max int) []string {
	ret := []string{}
	for i, n := 0, rng.Intn(max+1); i < n; i++ {
		ret = append(ret, from[rng.Intn(len(from))])
	}
	return ret
}

func genImage(rng *rand.Rand, i int) interface{} {
	c := ImgCase{Base: []string{}, Gz: rng.Intn(2) == 0, Order: rng.Int63n(1 << 20), Cfg: map[string]interface{}{}}
	ids := []string{"x", "y", "z", "w", "e", "v"}
	if rng.Intn(5) > 0 {
		for k, n := 0, 1+rng.Intn(4); k < n; k++ {
			c.Base = append(c.Base, ids[rng.Intn(len(ids))])
		}
		c.Hist = []int{0, len(c.Base), len(c.Base), len(c.Base) + 2}[rng.Intn(4)]
		conf := map[string]interface{}{}
		if rng.Intn(4) > 0 {
			conf["Env"] = pickStrs(rng, envVals, 4)
		}
		if rng.Intn(2) == 0 {
			conf["Entrypoint"] = argVals[rng.Intn(len(argVals))]
		}
		if rng.Intn(2) == 0 {
			conf["Cmd"] = argVals[rng.Intn(len(argVals))]
		}
		if rng.Intn(2) == 0 {
			conf["WorkingDir"] = []string{"/", "/w", "rel", "/sp ace"}[rng.Intn(4)]
		}
		for _, kv := range []struct {
			k string
			v interface{}
		}{{"User", "1000:1000"}, {"ExposedPorts", J{"80/tcp": J{}}}, {"Labels", J{"a": "b", "c.d": ""}}, {"StopSignal", "SIGINT"}, {"Volumes", J{"/data": J{}}},
			{"Hostname", "h"}, {"Tty", true}, {"Image", "sha256:abc"}, {"OnBuild", []string{"RUN x"}}, {"Shell", []string{"/bin/bash", "-c"}},
			{"Healthcheck", J{"Test": []string{"CMD", "x"}, "Interval": 30000000000, "Retries": 3}}, {"ArgsEscaped", true}, {"Domainname", "d"}, {"AttachStdout", true}} {
			if rng.Intn(3) == 0 {
				conf[kv.k] = kv.v
			}
		}
		c.Cfg["config"] = conf
		c.Cfg["architecture"] = []string{"amd64", "arm64", "s390x"}[rng.Intn(3)]
		c.Cfg["os"] = []string{"linux", "windows"}[rng.Intn(2)]
		for _, kv := range []struct{ k, v string }{{"author", "me"}, {"docker_version", "20.10.7"}, {"container", "cafe"}, {"created", "2021-05-04T03:02:01.000000005Z"}, {"os.version", "10.0.17763"}} {
			if rng.Intn(2) == 0 {
				c.Cfg[kv.k] = kv.v
			}
		}
	}
	for k, n := 0, 1+rng.Intn(3); k < n; k++ {
		s := ImgStep{Long: rng.Intn(2) == 0, Base: []string{"file", "file", "pipe"}[rng.Intn(3)]}
		for k, n := 0, 1+rng.Intn(4); k < n; k++ {
			s.Adds = append(s.Adds, ids[rng.Intn(len(ids))])
			s.Form = append(s.Form, []string{"tar", "gz", "pipe", "gzpipe"}[rng.Intn(4)])
		}
		s.F.Env, s.F.Ep, s.F.Cmd = []string{}, []string{}, []string{}
		if rng.Intn(4) > 0 {
			s.F.Clear = rng.Intn(3) == 0
			if rng.Intn(2) == 0 {
				s.F.Env = pickStrs(rng, envVals, 3)
			}
			if rng.Intn(3) == 0 {
				s.F.HasEp, s.F.Ep = true, argVals[rng.Intn(len(argVals))]
			}
			if rng.Intn(3) == 0 {
				s.F.HasCmd, s.F.Cmd = true, argVals[rng.Intn(len(argVals))]
			}
			if rng.Intn(3) == 0 {
				s.F.Wd = []string{"/", "/w2", "rel2", "/w"}[rng.Intn(4)]
			}
		}
		s.Tag = []string{"", "", "tt", "tt:1", "aa/bb/cc:v1.0", "localhost:5000/xx", "localhost:5000/xx:y", "example.com/xx", "e-x.com/y_z:latest"}[rng.Intn(9)]
		c.Steps = append(c.Steps, s)
	}
	if rng.Intn(4) == 0 {
		c.Bad = []string{"nobase", "cutbase", "junkbase", "badcfg", "dirbase", "nolayer", "cutlayer", "dirlayer", "badtag", "nomanifest"}[rng.Intn(10)]
		c.Cut = rng.Intn(100)
		if c.Bad == "badcfg" || c.Bad == "nomanifest" {
			c.Steps = c.Steps[:1]
		}
	}
	return c
}

// baseTarball writes an image the way "docker save" does.
func (c ImgCase) baseTarball() []byte {
	cfg := map[string]interface{}{}
	for k, v := range c.Cfg {
		cfg[k] = v
	}
	var diffs, files []string
	type member struct {
		name string
		body []byte
	}
	var members []member
	seen := map[string]bool{}
	for _, id := range c.Base {
		bs := imgContent(id)
		diffs = append(diffs, "sha256:"+sha(bs))
		nm := sha([]byte("id"+id)) + "/layer.tar"
		if c.Gz {
			bs = gz(bs)
			nm = sha(bs) + ".tar.gz"
		}
		files = append(files, nm)
		if !seen[nm] {
			members = append(members, member{nm, bs})
		}
		seen[nm] = true
	}
	cfg["rootfs"] = J{"type": "layers", "diff_ids": diffs}
	hist := []J{}
	for i := 0; i < c.Hist; i++ {
		hist = append(hist, J{"created": "2020-01-02T03:04:05Z", "created_by": fmt.Sprintf("step %d", i), "empty_layer": i >= len(c.Base)})
	}
	if len(hist) > 0 {
		cfg["history"] = hist
	}
	cbs, err := json.Marshal(cfg)
	must(err)
	if c.Bad == "badcfg" {
		cbs = []byte(`{"config": ["not", "an", "object"` + strings.Repeat("}", c.Cut%2))
	}
	cname := sha(cbs) + ".json"
	members = append(members, member{cname, cbs})
	mbs, err := json.Marshal([]J{{"Config": cname, "RepoTags": []string{"base:1"}, "Layers": files}})
	must(err)
	if c.Bad != "nomanifest" {
		members = append(members, member{"manifest.json", mbs})
	}
	rng := rand.New(rand.NewSource(c.Order))
	rng.Shuffle(len(members), func(i, j int) { members[i], members[j] = members[j], members[i] })
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, m := range members {
		must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: m.name, Mode: 0o644, Size: int64(len(m.body))}))
		_, err := tw.Write(m.body)
		must(err)
	}
	must(tw.Close())
	return buf.Bytes()
}

func zeroish(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == "" || x == "0001-01-01T00:00:00Z"
	case bool:
		return !x
	case []interface{}:
		return len(x) == 0
	case map[string]interface{}:
		return len(x) == 0
	}
	return false
}

func strList(v interface{}) []string {
	ret := []string{}
	if l, ok := v.([]interface{}); ok {
		for _, x := range l {
			ret = append(ret, ascii(fmt.Sprint(x)))
		}
	}
	return ret
}

func cfgJ(cfg map[string]interface{}) J {
	conf, _ := cfg["config"].(map[string]interface{})
	rest := [][]string{}
	add := func(k string, v interface{}) {
		if zeroish(v) {
			return
		}
		bs, err := json.Marshal(v)
		must(err)
		rest = append(rest, []string{k, ascii(string(bs))})
	}
	for k, v := range cfg {
		if k != "config" && k != "rootfs" && k != "history" {
			add(k, v)
		}
	}
	for k, v := range conf {
		if k != "Env" && k != "Entrypoint" && k != "Cmd" && k != "WorkingDir" {
			add("config."+k, v)
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i][0] < rest[j][0] })
	hists := []string{}
	if l, ok := cfg["history"].([]interface{}); ok {
		for _, h := range l {
			m, _ := h.(map[string]interface{})
			for k, v := range m {
				if zeroish(v) {
					delete(m, k)
				}
			}
			bs, err := json.Marshal(m)
			must(err)
			hists = append(hists, ascii(string(bs)))
		}
	}
	wd, _ := conf["WorkingDir"].(string)
	return J{"env": strList(conf["Env"]), "ep": strList(conf["Entrypoint"]), "cmd": strList(conf["Cmd"]), "wd": wd, "rest": rest, "hist": len(hists), "hists": hists}
}

var noImage = J{"ok": false, "why": "", "layers": []string{}, "tags": []string{}, "sums": []J{},
	"cfg": J{"env": []string{}, "ep": []string{}, "cmd": []string{}, "wd": "", "rest": [][]string{}, "hist": 0, "hists": []string{}}}

// imageJ reads an image tarball independently of the code under test.
func imageJ(bs []byte) J {
	bad := func(why string) J {
		ret := J{}
		for k, v := range noImage {
			ret[k] = v
		}
		ret["why"] = ascii(why)
		return ret
	}
	ents, err := readTar(bs)
	if err != nil {
		return bad(err.Error())
	}
	if len(bs) < 1024 || !bytes.Equal(bs[len(bs)-1024:], make([]byte, 1024)) {
		return bad("the archive is not complete")
	}
	files := map[string][]byte{}
	sums := []J{}
	for _, e := range ents {
		if _, dup := files[e.Hdr.Name]; dup {
			return bad("two members " + e.Hdr.Name)
		}
		files[e.Hdr.Name] = e.Body
	}
	var mans []struct {
		Config   string
		RepoTags []string
		Layers   []string
	}
	if err := json.Unmarshal(files["manifest.json"], &mans); err != nil {
		return bad("manifest: " + err.Error())
	}
	if len(mans) != 1 {
		return bad(fmt.Sprint(len(mans), " manifests"))
	}
	m := mans[0]
	cbs, ok := files[m.Config]
	if !ok {
		return bad("no configuration")
	}
	var cfg map[string]interface{}
	if err := json.Unmarshal(cbs, &cfg); err != nil {
		return bad("config: " + err.Error())
	}
	cn := strings.TrimSuffix(strings.TrimPrefix(m.Config, "sha256:"), ".json")
	sums = append(sums, J{"what": "configuration", "name": cn, "sum": sha(cbs)})
	rootfs, _ := cfg["rootfs"].(map[string]interface{})
	diffs := strList(rootfs["diff_ids"])
	if len(diffs) != len(m.Layers) {
		return bad(fmt.Sprint(len(diffs), " diff ids for ", len(m.Layers), " layers"))
	}
	layers := []string{}
	for i, ln := range m.Layers {
		lbs, ok := files[ln]
		if !ok {
			return bad("no layer " + ln)
		}
		raw := lbs
		if len(lbs) > 2 && lbs[0] == 0x1f && lbs[1] == 0x8b {
			raw, err = gunzip(lbs)
			if err != nil {
				return bad("layer: " + err.Error())
			}
		}
		if h := strings.TrimSuffix(strings.TrimSuffix(ln, ".gz"), ".tar"); len(h) == 64 {
			sums = append(sums, J{"what": "layer", "name": h, "sum": sha(lbs)})
		}
		sums = append(sums, J{"what": "diff id", "name": strings.TrimPrefix(diffs[i], "sha256:"), "sum": sha(raw)})
		layers = append(layers, sha(raw)[:12])
	}
	tags := m.RepoTags
	if tags == nil {
		tags = []string{}
	}
	return J{"ok": true, "why": "", "layers": layers, "tags": tags, "sums": sums, "cfg": cfgJ(cfg)}
}

func execImage(raw json.RawMessage) interface{} {
	var c ImgCase
	decode(raw, &c)
	d := scratchDir()
	defer dropDir(d)
	builds := []J{}
	var base []byte
	if len(c.Base) > 0 {
		base = c.baseTarball()
	}
	for i, s := range c.Steps {
		var stops []func()
		file := func(nm string, bs []byte, form string) string {
			p := filepath.Join(d, nm)
			if strings.HasPrefix(form, "gz") {
				bs = gz(bs)
			}
			if strings.HasSuffix(form, "pipe") {
				stops = append(stops, serveFIFO(p, bs, []int{1, 100, 512}, 0))
			} else {
				must(os.WriteFile(p, bs, 0o644))
			}
			return p
		}
		last := i == len(c.Steps)-1
		bad := ""
		if last {
			bad = c.Bad
		}
		if base == nil && (bad == "cutbase" || bad == "badcfg" || bad == "nomanifest") || len(c.Steps) > 1 && (bad == "badcfg" || bad == "nomanifest") {
			bad = "nolayer" // those damage the first base
		}
		if len(c.Steps) > 1 && i == 0 && (c.Bad == "badcfg" || c.Bad == "nomanifest") && base != nil {
			cc := c
			cc.Bad = ""
			base = cc.baseTarball()
		}
		args := []string{"image", "build"}
		bj := J{"layers": []string{}, "cfg": noImage["cfg"]}
		bbs := base
		switch bad {
		case "cutbase":
			end := len(base) - 1024 - 512
			bbs = base[:end*c.Cut/100]
		case "junkbase":
			bbs = bytes.Repeat([]byte("junk"), c.Cut)
		}
		switch {
		case bad == "nobase":
			args = append(args, "--base="+filepath.Join(d, "missing"))
		case bad == "dirbase":
			args = append(args, "--base", d)
		case bbs != nil:
			args = append(args, "--base="+file(fmt.Sprint("base", i), bbs, s.Base))
		}
		if base != nil && bad == "" {
			bj = imageJ(base)
			if bj["ok"] != true {
				panic(driverError{fmt.Errorf("bad base: %v", bj["why"])})
			}
		}
		pick := func(long, short string) string {
			if s.Long {
				return long
			}
			return short
		}
		if s.F.Clear {
			args = append(args, pick("--config.Env.clear", "-E"))
		}
		for _, e := range s.F.Env {
			args = append(args, pick("--config.Env.append", "-e"), e)
		}
		if s.F.HasEp {
			for _, e := range s.F.Ep {
				args = append(args, "--config.Entrypoint="+e)
			}
		}
		if s.F.HasCmd {
			for _, e := range s.F.Cmd {
				args = append(args, pick("--config.Cmd", "-c"), e)
			}
		}
		if s.F.Wd != "" {
			args = append(args, pick("--config.WorkingDir", "-w"), s.F.Wd)
		}
		tag := s.Tag
		if bad == "badtag" {
			tag = []string{"UPPER", "a:b:c:d", "a b", ":", "x/y@z"}[c.Cut%5]
		}
		if tag != "" {
			args = append(args, pick("--tag", "-t"), tag)
		}
		adds := []string{}
		given := map[string]string{} // the same file may be given more than once
		for k, id := range s.Adds {
			bs := imgContent(id)
			adds = append(adds, sha(bs)[:12])
			form := "tar"
			if k < len(s.Form) {
				form = s.Form[k]
			}
			nm := fmt.Sprintf("layer%d-%d", i, k)
			if k == c.Cut%len(s.Adds) {
				switch bad {
				case "nolayer":
					args = append(args, filepath.Join(d, nm+"missing"))
					continue
				case "dirlayer":
					args = append(args, d)
					continue
				case "cutlayer":
					g := gz(bs)
					n := 3 + (len(g)-4)*c.Cut/100
					args = append(args, file(nm, g[:n], strings.TrimPrefix(form, "gz")))
					continue
				}
			}
			arg, again := given[id]
			if !again || c.Cut%4 == 0 {
				arg = file(nm, bs, form)
				if !strings.Contains(form, "pipe") {
					given[id] = arg
				}
			}
			args = append(args, arg)
		}
		rc, out, errOut := runCLI(nil, d, args...)
		for _, f := range stops {
			f()
		}
		oj := imageJ(out)
		crash := bytes.Contains(errOut, []byte("\ngoroutine "))
		if len(errOut) > 400 {
			errOut = errOut[:400]
		}
		builds = append(builds, J{"base": bj, "adds": adds, "f": s.F, "tag": tag, "bad": bad != "", "rc": rc, "err": ascii(string(errOut)), "crash": crash, "out": oj})
		if rc != 0 || oj["ok"] != true {
			break
		}
		base = out
	}
	return J{"k": "image", "builds": builds}
}

// ---------------------------------------------------------------- pipes

type PipeOp struct {
	K string `json:"k"`
	H int    `json:"h"`
	N int    `json:"n"`
}

type PipeCase struct {
	Len    int      `json:"len"`
	Form   string   `json:"form"`
	Chunks []int    `json:"chunks"`
	Ops    []PipeOp `json:"ops"`
	Cut    int      `json:"cut"` // cut a compressed artifact off here (per cent), 0: whole
	Image  bool     `json:"image,omitempty"`
}

func genPipe(rng *rand.Rand, i int) interface{} {
	c := PipeCase{Form: []string{"file", "gzfile", "pipe", "gzpipe", "gz2pipe", "gz2file"}[rng.Intn(6)], Chunks: []int{}, Ops: []PipeOp{}}
	c.Len = []int{1, 2, 3, 5, 17, 100, 511, 512, 513, 4096, 70000, 200000}[rng.Intn(12)]
	if i%60 == 3 { // bigger than any buffer
		c.Len = []int{1<<20 + 1, 2500000, 4<<20 + 3, 9000000}[rng.Intn(4)]
	}
	for k, n := 0, rng.Intn(5); k < n; k++ {
		c.Chunks = append(c.Chunks, []int{1, 2, 10, 511, 512, 4096, 65536}[rng.Intn(7)])
	}
	open := map[int]bool{}
	for k, n := 0, rng.Intn(14); k < n; k++ {
		h := rng.Intn(4)
		if !open[h] || rng.Intn(6) == 0 {
			c.Ops = append(c.Ops, PipeOp{"open", h, 0})
			open[h] = true
		} else {
			c.Ops = append(c.Ops, PipeOp{"read", h, []int{1, 2, 5, 64, 512, 1000, 300000}[rng.Intn(7)]})
		}
	}
	if strings.HasPrefix(c.Form, "gz") && rng.Intn(5) == 0 {
		c.Cut = 1 + rng.Intn(98)
	}
	c.Image = rng.Intn(5) == 0
	return c
}

func pipeContent(n int) []byte {
	bs := make([]byte, n)
	rng := rand.New(rand.NewSource(int64(n)))
	for i := range bs {
		bs[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[rng.Intn(36)]
	}
	return bs
}

func sumsOf(l ociv1.Layer) ([]string, error) {
	dg, err := l.Digest()
	if err != nil {
		return nil, err
	}
	df, err := l.DiffID()
	if err != nil {
		return nil, err
	}
	sz, err := l.Size()
	if err != nil {
		return nil, err
	}
	rc, err := l.Compressed()
	if err != nil {
		return nil, err
	}
	defer rc.Close()
	bs, err := io.ReadAll(rc)
	if err != nil {
		return nil, err
	}
	ub, err := layerBytes(l)
	if err != nil {
		return nil, err
	}
	return []string{dg.Hex, df.Hex, fmt.Sprint(sz), sha(bs), fmt.Sprint(len(bs)), sha(ub)}, nil
}

func execPipe(raw json.RawMessage) interface{} {
	var c PipeCase
	decode(raw, &c)
	d := scratchDir()
	defer dropDir(d)
	content := pipeContent(c.Len)
	bs := content
	switch {
	case strings.HasPrefix(c.Form, "gz2"): // two members
		bs = append(append([]byte{}, gz(content[:len(content)/2])...), gz(content[len(content)/2:])...)
	case strings.HasPrefix(c.Form, "gz"):
		bs = gz(content)
	}
	valid := true
	if c.Cut > 0 && strings.HasPrefix(c.Form, "gz") {
		bs = bs[:3+(len(bs)-4)*c.Cut/100]
		valid = false
		if strings.HasPrefix(c.Form, "gz2") {
			if r, err := gunzip(bs); err == nil { // cut between the members
				content = r
				valid = true
			}
		}
	}
	ev := J{"k": "pipe", "content": "", "form": c.Form, "valid": valid, "err": "", "ops": []J{}, "sums": []J{}}
	fail := func(err error) J { ev["err"] = ascii(err.Error()); return ev }
	p := filepath.Join(d, "artifact")
	q := filepath.Join(d, "plain")
	isPipe := strings.HasSuffix(c.Form, "pipe")
	sums := []J{}
	sum := func(what, a, b string) { sums = append(sums, J{"what": what, "a": a, "b": b}) }
	if c.Image && valid {
		img := ImgCase{Base: []string{"x", "y", "x"}, Gz: strings.HasPrefix(c.Form, "gz"), Cfg: map[string]interface{}{"architecture": "amd64", "os": "linux", "config": J{"Env": []string{"A=1"}}}, Order: int64(c.Len)}.baseTarball()
		must(os.WriteFile(q, img, 0o644))
		if isPipe {
			defer serveFIFO(p, img, c.Chunks, time.Millisecond)()
		} else {
			must(os.WriteFile(p, img, 0o644))
		}
		a, err := fsutil.OpenImage(p)
		if err != nil {
			return fail(err)
		}
		b, err := fsutil.OpenImage(q)
		if err != nil {
			return fail(err)
		}
		for n := 0; n < 2; n++ {
			da, err := a.Digest()
			if err != nil {
				return fail(err)
			}
			db, err := b.Digest()
			if err != nil {
				return fail(err)
			}
			sum("digest of the image", da.Hex, db.Hex)
			la, err := a.Layers()
			if err != nil {
				return fail(err)
			}
			if len(la) != 3 {
				sum("number of layers", fmt.Sprint(len(la)), "3")
			}
			for i, l := range la {
				s, err := sumsOf(l)
				if err != nil {
					return fail(err)
				}
				sum("layer content", s[5], sha(imgContent([]string{"x", "y", "x"}[i])))
				sum("layer digest", s[0], s[3])
			}
		}
		ev["sums"] = sums
		return ev
	}
	must(os.WriteFile(q, bs, 0o644))
	if isPipe {
		defer serveFIFO(p, bs, c.Chunks, time.Millisecond)()
	} else {
		must(os.WriteFile(p, bs, 0o644))
	}
	l, err := fsutil.OpenLayer(p)
	if err != nil {
		return fail(err)
	}
	small := c.Len <= 200
	hs := map[int]io.ReadCloser{}
	read := map[int]*bytes.Buffer{}
	ops := []J{}
	for _, o := range c.Ops {
		oj := J{"k": o.K, "h": o.H, "n": o.N, "err": "", "got": ""}
		if o.K == "open" {
			r, err := l.Uncompressed()
			if err != nil {
				oj["err"] = ascii(err.Error())
			}
			hs[o.H] = r
			read[o.H] = &bytes.Buffer{}
		} else if hs[o.H] != nil {
			buf := make([]byte, o.N)
			n, err := io.ReadFull(hs[o.H], buf)
			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
				oj["err"] = ascii(err.Error())
			}
			oj["got"] = ascii(string(buf[:n]))
			read[o.H].Write(buf[:n])
			if !small { // too long for the trace: compare with the same part of the content
				b := read[o.H].Bytes()
				if len(b) <= len(content) {
					sum("content read so far", hash8(b), hash8(content[:len(b)]))
				} else {
					sum("length read", fmt.Sprint(len(b)), fmt.Sprint(len(content)))
				}
				if err != nil {
					sum("length at the end", fmt.Sprint(len(b)), fmt.Sprint(len(content)))
				}
			}
		}
		ops = append(ops, oj)
	}
	if small {
		ev["ops"], ev["content"] = ops, string(content)
	} else {
		for _, o := range ops {
			if o["err"] != "" {
				ev["err"] = o["err"]
			}
		}
	}
	for n := 0; n < 2; n++ {
		s, err := sumsOf(l)
		if err != nil {
			return fail(err)
		}
		sum("diff id", s[1], sha(content))
		sum("uncompressed bytes", s[5], sha(content))
		sum("digest", s[0], s[3])
		sum("size", s[2], s[4])
		if strings.HasPrefix(c.Form, "gz") {
			sum("compressed bytes", s[3], sha(bs))
		}
		f, err := fsutil.OpenLayer(q)
		if err != nil {
			return fail(err)
		}
		t, err := sumsOf(f)
		if err != nil {
			return fail(err)
		}
		sum("pipe and file", strings.Join(s, " "), strings.Join(t, " "))
	}
	for _, h := range hs {
		if h != nil {
			_ = h.Close()
		}
	}
	ev["sums"] = sums
	return ev
}

// ---------------------------------------------------------------- docker

type DockerFault struct {
	Engine string `json:"engine"`
	Cancel string `json:"cancel"`
	Load   string `json:"load"`
	Act    string `json:"act"`
	Rm     string `json:"rm"`
	Img    string `json:"img"` // "bad": the last layer cannot be read to its end
}

type DockerCase struct {
	Fault DockerFault `json:"fault"`
	Big   bool        `json:"big"`
	Seed  int64       `json:"seed"`
	Acts  []string    `json:"acts,omitempty"` // several images loaded at the same time: what their actions do
}

func genDocker(rng *rand.Rand, i int) interface{} {
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	if rng.Intn(6) == 0 {
		c := DockerCase{Seed: rng.Int63n(1 << 20), Fault: DockerFault{"ok", "never", "ok", "ok", "ok", "ok"}}
		for n := 2 + rng.Intn(3); n > 0; n-- {
			c.Acts = append(c.Acts, pick("ok", "ok", "fail", "panic"))
		}
		return c
	}
	return DockerCase{Big: rng.Intn(3) == 0, Seed: rng.Int63n(1 << 20), Fault: DockerFault{pick("ok", "ok", "ok", "missing"), pick("never", "never", "before", "load", "act"), pick("ok", "ok", "early", "late"), pick("ok", "fail", "panic"), pick("ok", "fail"), pick("ok", "ok", "ok", "bad")}}
}

const fakeDocker = `#!/bin/bash
# stands in for the container engine's client: records its calls
args=()
for a in "$@"; do case "$a" in -*) ;; *) args+=("$a");; esac; done
case "${args[*]}" in
"image load"|"load")
  echo "load $$" >>"$DK/log"
  case $DK_LOAD in
  hang) touch "$DK/started"; exec sleep 60;;
  early) exit 1;;
  esac
  cat >"$DK/img.$$"
  [ -z "$DK_SLOW" ] || sleep "$DK_SLOW"
  echo "loaded $$" >>"$DK/log"
  [ $DK_LOAD = ok ] || exit 1
  exit 0;;
"image rm "*) echo "rm ${args[2]}" >>"$DK/log"; [ $DK_RM = ok ];;
"rmi "*) echo "rm ${args[1]}" >>"$DK/log"; [ $DK_RM = ok ];;
*) echo "other ${args[*]}" >>"$DK/log"; exit 1;;
esac
`

var errAct = errors.New("the action failed")

func execDocker(raw json.RawMessage) interface{} {
	var c DockerCase
	decode(raw, &c)
	d := scratchDir()
	defer dropDir(d)
	must(os.Mkdir(filepath.Join(d, "bin"), 0o755))
	if c.Fault.Engine == "ok" {
		must(os.WriteFile(filepath.Join(d, "bin/docker"), []byte(fakeDocker), 0o755))
	}
	oldPath := os.Getenv("PATH")
	defer os.Setenv("PATH", oldPath)
	if c.Fault.Engine == "ok" {
		os.Setenv("PATH", filepath.Join(d, "bin")+":"+oldPath)
	} else {
		os.Setenv("PATH", filepath.Join(d, "bin"))
	}
	os.Setenv("DK", d)
	os.Setenv("DK_RM", c.Fault.Rm)
	os.Setenv("DK_LOAD", c.Fault.Load)
	if c.Fault.Cancel == "load" {
		os.Setenv("DK_LOAD", "hang")
	}
	os.Unsetenv("DK_SLOW")
	if c.Acts != nil {
		return execEngine(c, d)
	}
	n := 100
	if c.Big {
		n = 300000
	}
	img, sum := dockerImage(c.Seed, n, c.Fault.Img == "bad")
	if c.Fault.Img == "bad" {
		os.Setenv("DK_SLOW", "0.05")
	}

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.Fault.Cancel == "before" {
		cancel()
	}
	if c.Fault.Cancel == "load" {
		go func() {
			for ctx.Err() == nil {
				if _, err := os.Stat(filepath.Join(d, "started")); err == nil {
					cancel()
					return
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	logf, err := os.OpenFile(filepath.Join(d, "log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	defer logf.Close()
	panicked := false
	var ret error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r != "act" {
					panic(r)
				}
				panicked = true
			}
		}()
		ret = dockerutil.WithImage(ctx, "verif", img, func(_ context.Context, tag name.Tag) error {
			fmt.Fprintf(logf, "act 1 %s\n", tag)
			if c.Fault.Cancel == "act" {
				cancel()
			}
			switch c.Fault.Act {
			case "fail":
				return errAct
			case "panic":
				panic("act")
			}
			return nil
		})
	}()
	retS := ""
	if ret != nil {
		retS = "error: " + ascii(ret.Error())
		if errors.Is(ret, errAct) {
			retS = "act"
		}
	}
	bs, err := os.ReadFile(filepath.Join(d, "log"))
	must(err)
	if c.Fault.Img == "bad" && c.Fault.Engine == "ok" && c.Fault.Cancel == "never" && c.Fault.Load != "early" {
		// a load that outlives the call shows up late
		for i := 0; i < 100 && !bytes.Contains(bs, []byte("loaded")); i++ {
			time.Sleep(5 * time.Millisecond)
			bs, err = os.ReadFile(filepath.Join(d, "log"))
			must(err)
		}
	}
	return J{"k": "docker", "fault": c.Fault, "calls": dockerCalls(d, bs), "sum": sum, "ret": retS, "panicked": panicked}
}

type badLayer struct{ ociv1.Layer }

func (l badLayer) Compressed() (io.ReadCloser, error) {
	r, err := l.Layer.Compressed()
	if err != nil {
		return nil, err
	}
	return io.NopCloser(io.MultiReader(io.LimitReader(r, 50), errReader{})), nil
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("the layer cannot be read") }

// dockerImage is an image of one layer with a file of n bytes, and what identifies it.
func dockerImage(seed int64, n int, bad bool) (ociv1.Image, string) {
	body := make([]byte, n)
	rand.New(rand.NewSource(seed)).Read(body)
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "f", Mode: 0o644, Size: int64(n)}))
	_, err := tw.Write(body)
	must(err)
	must(tw.Close())
	l := layerOf(buf.Bytes())
	if bad {
		l = badLayer{l}
	}
	img, err := mutate.AppendLayers(empty.Image, l)
	must(err)
	cfgName, err := img.ConfigName()
	must(err)
	return img, cfgName.Hex + fmt.Sprint([]string{sha(buf.Bytes())[:12]})
}

func dockerCalls(d string, log []byte) []J {
	calls := []J{}
	for _, line := range strings.Split(strings.TrimSpace(string(log)), "\n") {
		f := strings.SplitN(line+" ", " ", 2)
		cj := J{"k": f[0], "tag": strings.TrimSpace(f[1]), "sum": "", "s": 0}
		switch f[0] {
		case "":
			continue
		case "act", "end":
			if g := strings.Fields(f[1]); len(g) == 2 {
				n, err := strconv.Atoi(g[0])
				must(err)
				cj["s"], cj["tag"] = n, g[1]
			}
		case "load", "loaded":
			ibs, _ := os.ReadFile(filepath.Join(d, "img."+strings.TrimSpace(f[1])))
			cj["tag"] = ""
			ij := imageJ(ibs)
			if ij["ok"] == true {
				if t := ij["tags"].([]string); len(t) == 1 {
					cj["tag"] = t[0]
				}
				s := ij["sums"].([]J)
				cj["sum"] = s[0]["name"].(string) + fmt.Sprint(ij["layers"])
			} else {
				cj["sum"] = ij["why"]
			}
		}
		calls = append(calls, cj)
	}
	return calls
}

// execEngine has several images loaded at the same time.
func execEngine(c DockerCase, d string) interface{} {
	n := len(c.Acts)
	sums := make([]string, n)
	rets := make([]J, n)
	logf, err := os.OpenFile(filepath.Join(d, "log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	defer logf.Close()
	var wg sync.WaitGroup
	acting := make(chan struct{}) // closed when all actions have begun
	var mu sync.Mutex
	begun := 0
	imgs := make([]ociv1.Image, n)
	for i := range imgs {
		imgs[i], sums[i] = dockerImage(c.Seed+int64(i), 100, false)
	}
	for i := range imgs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rets[i] = J{"ret": "", "panicked": false}
			defer func() {
				if r := recover(); r != nil {
					if r != "act" {
						panic(r)
					}
					rets[i]["panicked"] = true
				}
			}()
			err := dockerutil.WithImage(context.Background(), "verif", imgs[i], func(_ context.Context, tag name.Tag) error {
				fmt.Fprintf(logf, "act %d %s\n", i+1, tag)
				mu.Lock()
				begun++
				if begun == n {
					close(acting)
				}
				mu.Unlock()
				select {
				case <-acting:
				case <-time.After(5 * time.Second):
				}
				fmt.Fprintf(logf, "end %d %s\n", i+1, tag)
				switch c.Acts[i] {
				case "fail":
					return errAct
				case "panic":
					panic("act")
				}
				return nil
			})
			switch {
			case errors.Is(err, errAct):
				rets[i]["ret"] = "act"
			case err != nil:
				rets[i]["ret"] = "error: " + ascii(err.Error())
			}
		}(i)
	}
	wg.Wait()
	bs, err := os.ReadFile(filepath.Join(d, "log"))
	must(err)
	return J{"k": "engine", "acts": c.Acts, "calls": dockerCalls(d, bs), "sums": sums, "rets": rets}
}

// ---------------------------------------------------------------- inspect

type InsEnt struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Link string `json:"link,omitempty"`
	Mode int64  `json:"mode"`
	Own  int    `json:"own,omitempty"`
}

type InsCase struct {
	Layers [][]InsEnt `json:"layers"`
	Env    []string   `json:"env"`
	Wd     string     `json:"wd"`
	Looks  []string   `json:"looks"`
	Stats  []string   `json:"stats"`
}

var insDirs = []string{"b", "c", "usr/bin", "w", "w/b"}
var insFiles = []string{"python3", "pythonw3", "python", "pythonw", "sh", "pythonwx", "pythonwhy", "pythonhy", "pythony", "python3-python", "pythonw3-python", "pythonw3-pythonw", "Python3"}

func genInspect(rng *rand.Rand, i int) interface{} {
	pick := func(s []string) string { return s[rng.Intn(len(s))] }
	c := InsCase{Looks: []string{}, Stats: []string{}, Env: []string{}}
	insDirs := []string{pick(insDirs), pick(insDirs), "b"}
	insFiles := []string{pick(insFiles), pick(insFiles), pick(insFiles[:4])}
	if f := insFiles[0]; rng.Intn(3) == 0 { // something that could be its partner
		switch {
		case strings.HasPrefix(f, "pythonw"):
			insFiles[1] = "python" + f[7:]
			if rng.Intn(2) == 0 {
				insFiles[1] = "python" + strings.TrimLeft(f[7:], "pythonw")
			}
		case strings.HasPrefix(f, "python"):
			insFiles[1] = "pythonw" + f[6:]
		}
	}
	var made []string
	anyPath := func() string {
		if len(made) > 0 && rng.Intn(3) == 0 {
			return pick(made)
		}
		switch rng.Intn(6) {
		case 0:
			return pick(insDirs)
		default:
			return pick(insDirs) + "/" + pick(insFiles)
		}
	}
	for k, n := 0, 1+rng.Intn(3); k < n; k++ {
		l := []InsEnt{}
		for m, q := 0, 1+rng.Intn(9); m < q; m++ {
			e := InsEnt{Name: anyPath(), Type: "reg", Own: rng.Intn(560), Mode: []int64{0o755, 0o755, 0o644, 0o100, 0o010, 0o001, 0o4755, 0o666, 0, 0o711}[rng.Intn(10)]}
			switch r := rng.Intn(10); {
			case r < 2:
				e.Type, e.Name = "dir", pick(insDirs)
				if rng.Intn(6) == 0 {
					e.Name = pick([]string{".", "./"})
				}
				e.Mode = 0o755
			case r < 4:
				e.Type = "sym"
				e.Link = []string{pick(insFiles), "/" + anyPath(), anyPath(), "b", "/c"}[rng.Intn(5)]
				if strings.Contains(e.Link, ".wh.") { // a marker is no file to point to
					e.Link = "b"
				}
			case r == 4 && rng.Intn(2) == 0:
				e.Name = pick(insDirs) + "/.wh." + pick(insFiles)
			case r == 5 && rng.Intn(3) == 0:
				e.Name = pick(insDirs) + "/.wh..wh..opq"
			case r == 6 && rng.Intn(3) == 0:
				e.Type = []string{"fifo", "chr"}[rng.Intn(2)]
			}
			l = append(l, e)
			if strings.Trim(e.Name, "./") != "" { // otherwise the root
				made = append(made, e.Name)
			}
		}
		c.Layers = append(c.Layers, l)
	}
	dirs := []string{"/b", "/c", "b", "", ".", "/usr/bin", "/usr//bin/", "/nope", "/w/b", "/", "/b/python3"}
	for _, d := range insDirs {
		dirs = append(dirs, "/"+d, "/"+d)
	}
	if rng.Intn(8) > 0 {
		var ps []string
		for k, n := 0, rng.Intn(5); k < n; k++ {
			ps = append(ps, pick(dirs))
		}
		c.Env = append(c.Env, "PATH="+strings.Join(ps, ":"))
	}
	if rng.Intn(3) == 0 {
		c.Env = append([]string{[]string{"XPATH=/b", "A=b", "PATHX=/c", "path=/b", "Path=/b:/c", " PATH=/c"}[rng.Intn(6)]}, c.Env...)
	}
	if rng.Intn(6) == 0 {
		c.Env = append(c.Env, "PATH=/c:/b")
	}
	c.Wd = []string{"", "/", "/w", "w", "/usr/bin", "/nope"}[rng.Intn(6)]
	for k := 0; k < 6; k++ {
		c.Looks = append(c.Looks, []string{pick(insFiles), pick(insFiles), pick(insFiles), "/" + anyPath(), anyPath(), "./" + pick(insFiles), "//b//python3", "nope", ".wh." + pick(insFiles), "/" + pick(insDirs) + "/.wh." + pick(insFiles)}[rng.Intn(10)])
	}
	for k := 0; k < 5; k++ {
		c.Stats = append(c.Stats, []string{"/" + anyPath(), "/" + anyPath(), "/" + pick(insDirs), anyPath(), "//" + anyPath(), "/./" + anyPath() + "/", "/" + pick(insDirs) + "/.wh." + pick(insFiles), "/" + pick([]string{"", "/", ".", "..", "./"})}[rng.Intn(8)])
	}
	return c
}

// insAttrs shows the attributes of a file, its permissions last.
func insAttrs(uid, gid int, un, gn string, mt time.Time, m fs.FileMode) string {
	return fmt.Sprintf("%d:%d '%s':'%s' @%d %s %03o", uid, gid, un, gn, mt.Unix(), m&(fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky), m.Perm())
}

func execInspect(raw json.RawMessage) interface{} {
	var c InsCase
	decode(raw, &c)
	layers := make([][]J, 0)
	var ls []ociv1.Layer
	for _, l := range c.Layers {
		var buf bytes.Buffer
		tw := tar.NewWriter(&buf)
		ents := []J{}
		for _, e := range l {
			h := &tar.Header{Typeflag: typeFlags[e.Type], Name: e.Name, Linkname: e.Link, Mode: e.Mode, ModTime: time.Unix(int64(1500000000+e.Own), 0)}
			h.Uid, h.Gid, h.Uname, h.Gname = e.Own%7*1000, e.Own%5*1000001, []string{"", "root", "me", " a b "}[e.Own%4], []string{"", "wheel", "us ", "012"}[e.Own/4%4]
			must(tw.WriteHeader(h))
			cs, ab := comps(e.Name)
			to, lab := comps(e.Link)
			ents = append(ents, J{"c": cs, "ab": ab, "t": e.Type, "to": to, "lab": lab, "m": insAttrs(h.Uid, h.Gid, h.Uname, h.Gname, h.ModTime, h.FileInfo().Mode())})
		}
		must(tw.Close())
		layers = append(layers, ents)
		ls = append(ls, layerOf(buf.Bytes()))
	}
	img, err := mutate.AppendLayers(empty.Image, ls...)
	must(err)
	img, err = mutate.Config(img, ociv1.Config{Env: c.Env, WorkingDir: c.Wd})
	must(err)
	sys := &pyinspect.ImageFS{Image: img}
	looks, stats := []J{}, []J{}
	for _, f := range c.Looks {
		x := J{"f": f, "ok": false, "p": "", "sok": false, "sc": "", "sg": ""}
		if p, err := sys.LookPath(f); err == nil {
			x["ok"], x["p"] = true, ascii(p)
		}
		if sc, sg, err := pyinspect.Shebangs(sys, f); err == nil {
			x["sok"], x["sc"], x["sg"] = true, ascii(sc), ascii(sg)
		}
		looks = append(looks, x)
	}
	for _, p := range c.Stats {
		x := J{"p": p, "ok": false, "m": "", "dir": false}
		if fi, err := sys.Stat(p); err == nil {
			x["ok"], x["m"], x["dir"] = true, insAttrs(fi.UID(), fi.GID(), fi.UName(), fi.GName(), fi.ModTime(), fi.Mode()), fi.IsDir()
		}
		stats = append(stats, x)
	}
	return J{"k": "inspect", "layers": layers, "env": c.Env, "wd": c.Wd, "looks": looks, "stats": stats}
}
