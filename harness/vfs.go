package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"strings"
	"sync"
	"syscall"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
)

// VEnt is a layer entry with printable content.
type VEnt struct {
	Name  string `json:"name"`
	Type  string `json:"type"`
	Link  string `json:"link,omitempty"`
	Data  string `json:"data,omitempty"`
	Mode  int64  `json:"mode"`
	Mtime int64  `json:"mtime"`
}

// VOp is a call on the file system or on a handle.
type VOp struct {
	Op   string `json:"op"`
	H    int    `json:"h"`
	Name string `json:"name,omitempty"`
	N    int    `json:"n"`
}

// VfsCase is a stack of layers and a history of calls.
type VfsCase struct {
	KF     string   `json:"kf,omitempty"`
	Layers [][]VEnt `json:"layers"`
	Omit   bool     `json:"omit,omitempty"`
	Ops    []VOp    `json:"ops"`
	Free   bool     `json:"free,omitempty"` // only termination is judged
	Par    int      `json:"par,omitempty"`  // so many sessions at once
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, syscall.ENOTDIR):
		return "notdir"
	case errors.Is(err, syscall.ELOOP):
		return "loop"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.Is(err, syscall.EISDIR):
		return "isdir"
	case errors.Is(err, squash.ErrMissing):
		return "missing"
	}
	return "other"
}

func fsType(m fs.FileMode) string {
	switch {
	case m&fs.ModeDir != 0:
		return "dir"
	case m&fs.ModeSymlink != 0:
		return "sym"
	case m&fs.ModeNamedPipe != 0:
		return "fifo"
	case m&fs.ModeDevice != 0 && m&fs.ModeCharDevice != 0:
		return "chr"
	case m&fs.ModeDevice != 0:
		return "blk"
	case m&fs.ModeType == 0:
		return "reg"
	}
	return "unknown"
}

func fsMode(m fs.FileMode) int {
	r := int(m.Perm())
	if m&fs.ModeSetuid != 0 {
		r |= 0o4000
	}
	if m&fs.ModeSetgid != 0 {
		r |= 0o2000
	}
	if m&fs.ModeSticky != 0 {
		r |= 0o1000
	}
	return r
}

func infoJ(fi fs.FileInfo, err error) J {
	if err != nil {
		return J{"err": errClass(err), "name": "", "size": 0, "mode": 0, "t": "", "mtime": 0, "isdir": false}
	}
	return J{"err": "", "name": fi.Name(), "size": int(fi.Size()), "mode": fsMode(fi.Mode()), "t": fsType(fi.Mode()), "mtime": int(fi.ModTime().Unix()), "isdir": fi.IsDir()}
}

func vfsTar(ents []VEnt) []byte {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, e := range ents {
		hdr := &tar.Header{Name: e.Name, Typeflag: typeFlags[e.Type], Linkname: e.Link, Mode: e.Mode, ModTime: time.Unix(e.Mtime, 0)}
		if e.Type == "reg" {
			hdr.Size = int64(len(e.Data))
		}
		must(tw.WriteHeader(hdr))
		if e.Type == "reg" {
			_, err := tw.Write([]byte(e.Data))
			must(err)
		}
	}
	must(tw.Close())
	return buf.Bytes()
}

func execVfs(raw json.RawMessage) interface{} {
	var c VfsCase
	decode(raw, &c)
	metas := J{"none": J{"data": "", "mode": 0, "mtime": 0}}
	inJ := [][]J{}
	var in []ociv1.Layer
	for i, l := range c.Layers {
		in = append(in, layerOf(vfsTar(l)))
		es := []J{}
		for j, e := range l {
			k := fmt.Sprintf("k%d_%d", i, j)
			metas[k] = J{"data": e.Data, "mode": int(e.Mode), "mtime": int(e.Mtime)}
			cc, ab := comps(e.Name)
			to, lab := comps(e.Link)
			es = append(es, J{"name": e.Name, "c": cc, "ab": ab, "t": e.Type, "to": to, "lab": lab, "m": k})
		}
		inJ = append(inJ, es)
	}
	ev := J{"in": inJ, "metas": metas, "omit": c.Omit, "free": c.Free, "err": "", "log": []J{}, "kf": c.KF, "sqerr": "", "sqnames": []J{}, "par": [][]J{}}
	if c.Free {
		out, err := squash.Squash(in, fastLayer)
		if err != nil {
			ev["sqerr"] = errClass(err)
			if ev["sqerr"] == "other" {
				ev["sqerr"] = cut(err.Error(), 300)
			}
		} else {
			bs, err := layerBytes(out)
			must(err)
			rs, err := readTar(bs)
			if err != nil {
				ev["sqerr"] = "unreadable"
			} else {
				ev["sqnames"] = entsJ(rs)
			}
		}
	}
	vfs, err := squash.Load(in, c.Omit)
	if err != nil {
		ev["err"] = errClass(err)
		if ev["err"] == "other" {
			ev["err"] = cut(err.Error(), 300)
		}
		return ev
	}
	if c.Par <= 1 {
		ev["log"] = c.session(vfs)
		return ev
	}
	logs := make([][]J, c.Par)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range logs {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			logs[g] = c.session(vfs)
		}()
	}
	close(start)
	wg.Wait()
	ev["log"] = logs[0]
	others := [][]J{}
	first, err := json.Marshal(logs[0])
	must(err)
	for _, l := range logs[1:] {
		bs, err := json.Marshal(l)
		must(err)
		if !bytes.Equal(first, bs) {
			others = append(others, l)
		}
	}
	ev["par"] = others
	return ev
}

// session makes the calls of the case, with handles of its own.
func (c VfsCase) session(vfs fs.FS) []J {
	handles := map[int]fs.File{}
	log := []J{}
	for _, op := range c.Ops {
		cc, _ := comps(op.Name)
		rec := J{"op": op.Op, "h": op.H, "name": op.Name, "c": cc, "n": op.N}
		switch op.Op {
		case "open":
			f, err := vfs.Open(op.Name)
			rec["err"] = errClass(err)
			delete(handles, op.H)
			if err == nil {
				handles[op.H] = f
			}
		case "conc": // several goroutines reading from one handle
			f := handles[op.H]
			if f == nil {
				continue
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			chunks := []string{}
			errs := map[string]int{}
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 1000; k++ {
						buf := make([]byte, op.N)
						n, err := f.Read(buf)
						mu.Lock()
						if n > 0 {
							chunks = append(chunks, string(buf[:n]))
						}
						if err != nil {
							errs[errClass(err)]++
							mu.Unlock()
							return
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			ks := []string{}
			for k := range errs {
				ks = append(ks, k)
			}
			rec["chunks"] = chunks
			rec["errs"] = ks
			rec["err"] = ""
		default:
			f := handles[op.H]
			if f == nil {
				continue
			}
			switch op.Op {
			case "stat":
				fi, err := f.Stat()
				rec["err"] = errClass(err)
				rec["info"] = infoJ(fi, err)
			case "read":
				buf := bytes.Repeat([]byte{'~'}, op.N)
				n, err := f.Read(buf)
				rec["err"] = errClass(err)
				rec["k"] = n
				if n < 0 || n > len(buf) {
					rec["data"] = "?"
				} else {
					rec["data"] = string(buf[:n])
				}
			case "readdir":
				d, ok := f.(fs.ReadDirFile)
				if !ok {
					rec["err"] = "notdir"
					rec["ents"] = []J{}
					break
				}
				ents, err := d.ReadDir(op.N)
				rec["err"] = errClass(err)
				es := []J{}
				for _, e := range ents {
					es = append(es, J{"name": e.Name(), "t": fsType(e.Type()), "isdir": e.IsDir(), "info": infoJ(e.Info())})
				}
				rec["ents"] = es
			case "close":
				rec["err"] = errClass(f.Close())
			}
		}
		log = append(log, rec)
	}
	return log
}

func cut(s string, n int) string {
	s = strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return '?'
		}
		return r
	}, s)
	if len(s) > n {
		return s[:n]
	}
	return s
}

var vfsNames = []string{"a", "b", "c", "d.x", "a", "b", "c", "a", "b", ".wh", ".whx", "x.wh.y", ".hid", "..x"}

func vfsPath(rng *rand.Rand, max int) string {
	var cs []string
	for n := 1 + rng.Intn(max); n > 0; n-- {
		cs = append(cs, vfsNames[rng.Intn(len(vfsNames))])
	}
	return strings.Join(cs, "/")
}

func genVfs(rng *rand.Rand, i int) interface{} {
	c := VfsCase{Omit: rng.Intn(8) == 0}
	letters := "abcdefghijklmnopqrstuvwxyz0123456789"
	modes := []int64{0o644, 0o755, 0o4755, 0o2750, 0o1777, 0o600, 0}
	var paths []string
	for l := 1 + rng.Intn(3); l > 0; l-- {
		var ents []VEnt
		for e := 1 + rng.Intn(8); e > 0; e-- {
			p := vfsPath(rng, 3)
			ent := VEnt{Mode: modes[rng.Intn(len(modes))], Mtime: int64(rng.Intn(2000000000)), Name: p}
			switch k := rng.Intn(20); {
			case k < 7:
				ent.Type = "reg"
				var sb strings.Builder
				for n := rng.Intn(24); n > 0; n-- {
					sb.WriteByte(letters[rng.Intn(len(letters))])
				}
				ent.Data = sb.String()
			case k < 11:
				ent.Type = "dir"
				if rng.Intn(8) == 0 {
					ent.Name = "."
				}
			case k < 15:
				ent.Type = "sym"
				t := vfsPath(rng, 2)
				switch rng.Intn(6) {
				case 0:
					t = "/" + t
				case 1:
					t = "../" + t
				case 2:
					t = "../../" + t
				case 3:
					t = []string{".", "..", "/", "../.."}[rng.Intn(4)]
				}
				ent.Link = t
			case k < 17:
				ent.Type = "reg"
				j := strings.LastIndex(p, "/") + 1
				ent.Name = p[:j] + ".wh." + p[j:]
			case k < 18:
				ent.Type = "reg"
				ent.Name = p + "/.wh..wh..opq"
			case k < 19:
				ent.Type = []string{"chr", "blk", "fifo"}[rng.Intn(3)]
			default:
				if len(paths) == 0 {
					continue
				}
				ent.Type = "lnk"
				ent.Link = paths[rng.Intn(len(paths))]
			}
			if ent.Type != "dir" {
				paths = append(paths, ent.Name)
			}
			ents = append(ents, ent)
		}
		c.Layers = append(c.Layers, ents)
	}
	pick := func() string {
		switch rng.Intn(12) {
		case 0:
			return "."
		case 1:
			return []string{"", "/a", "a/", "a//b", "../a", "a/../b", "./a", "a/./b", "/"}[rng.Intn(9)]
		case 2:
			return ".wh.a"
		case 3, 4, 5:
			if len(paths) > 0 {
				return paths[rng.Intn(len(paths))]
			}
		}
		return vfsPath(rng, 3)
	}
	for h := 0; h < 3; h++ {
		c.Ops = append(c.Ops, VOp{Op: "open", H: h, Name: pick()})
	}
	c.Ops = append(c.Ops, VOp{Op: "open", H: 3, Name: "."}, VOp{Op: "readdir", H: 3, N: 1 + rng.Intn(3)})
	for n := 6 + rng.Intn(22); n > 0; n-- {
		h := rng.Intn(4)
		switch k := rng.Intn(16); {
		case k < 3:
			c.Ops = append(c.Ops, VOp{Op: "open", H: h, Name: pick()})
		case k < 5:
			c.Ops = append(c.Ops, VOp{Op: "stat", H: h})
		case k < 10:
			c.Ops = append(c.Ops, VOp{Op: "read", H: h, N: rng.Intn(12)})
		case k < 14:
			c.Ops = append(c.Ops, VOp{Op: "readdir", H: h, N: rng.Intn(4) - 1})
		default:
			c.Ops = append(c.Ops, VOp{Op: "close", H: h})
		}
	}
	if rng.Intn(10) == 0 && len(paths) > 0 {
		c.Ops = append(c.Ops, VOp{Op: "open", H: 9, Name: paths[rng.Intn(len(paths))]}, VOp{Op: "conc", H: 9, N: 1 + rng.Intn(3)})
	}
	return c
}

// genAdv makes adversarial symlink graphs.
func genAdv(rng *rand.Rand, i int) interface{} {
	c := VfsCase{Free: true}
	names := []string{"a", "b", "c", "s0", "s1"}
	target := func() string {
		var cs []string
		for n := 1 + rng.Intn(4); n > 0; n-- {
			switch rng.Intn(7) {
			case 0:
				cs = append(cs, "..")
			case 1:
				cs = append(cs, ".")
			default:
				cs = append(cs, names[rng.Intn(len(names))])
			}
		}
		t := strings.Join(cs, "/")
		if rng.Intn(4) == 0 {
			t = "/" + t
		}
		return t
	}
	path := func() string {
		var cs []string
		for n := 1 + rng.Intn(3); n > 0; n-- {
			cs = append(cs, names[rng.Intn(len(names))])
		}
		return strings.Join(cs, "/")
	}
	for l := 1 + rng.Intn(3); l > 0; l-- {
		var ents []VEnt
		for e := 2 + rng.Intn(6); e > 0; e-- {
			ent := VEnt{Name: path(), Mode: 0o755, Type: "sym", Link: target()}
			switch rng.Intn(6) {
			case 0:
				ent.Type, ent.Link = "reg", ""
			case 1:
				ent.Type, ent.Link = "dir", ""
			case 2:
				ent.Type = "reg"
				ent.Link = ""
				j := strings.LastIndex(ent.Name, "/") + 1
				ent.Name = ent.Name[:j] + ".wh." + ent.Name[j:]
			}
			if rng.Intn(15) == 0 {
				ent.Name = []string{"../x", "/etc/x", "a/../../x", ".."}[rng.Intn(4)]
			}
			ents = append(ents, ent)
		}
		c.Layers = append(c.Layers, ents)
	}
	switch i % 12 {
	case 0: // a chain
		var ents []VEnt
		n := 2 + rng.Intn(45)
		for k := 0; k < n; k++ {
			ents = append(ents, VEnt{Name: fmt.Sprintf("ch%d", k), Type: "sym", Link: fmt.Sprintf("ch%d", k+1), Mode: 0o777})
		}
		ents = append(ents, VEnt{Name: fmt.Sprintf("ch%d", n), Type: "dir", Mode: 0o755}, VEnt{Name: "ch0/f", Type: "reg", Mode: 0o644})
		c.Layers = append(c.Layers, ents)
	case 1: // each goes twice through the one before
		var ents []VEnt
		ents = append(ents, VEnt{Name: "e0", Type: "sym", Link: ".", Mode: 0o777})
		for k := 1; k < 60; k++ {
			ents = append(ents, VEnt{Name: fmt.Sprintf("e%d", k), Type: "sym", Link: fmt.Sprintf("e%d/e%d", k-1, k-1), Mode: 0o777})
		}
		c.Layers = append(c.Layers, ents)
		c.Ops = append(c.Ops, VOp{Op: "open", Name: "e59"}, VOp{Op: "open", Name: "e59/x"}, VOp{Op: "open", Name: "e40/e40/e40"})
	case 2: // through itself
		c.Layers = append(c.Layers, []VEnt{{Name: "z", Type: "sym", Link: []string{"z/z", "./z/..", "/z/a", "z", "../z/b"}[rng.Intn(5)], Mode: 0o777}, {Name: "z/f", Type: "reg"}})
	case 3: // mutual
		c.Layers = append([][]VEnt{{{Name: "y", Type: "sym", Link: "z/q", Mode: 0o777}, {Name: "z", Type: "sym", Link: "y/q", Mode: 0o777}}}, c.Layers...)
		c.Ops = append(c.Ops, VOp{Op: "open", Name: "y"}, VOp{Op: "open", Name: "z/q"})
	}
	for n := 12; n > 0; n-- {
		c.Ops = append(c.Ops, VOp{Op: "open", H: 0, Name: path()}, VOp{Op: "stat", H: 0}, VOp{Op: "readdir", H: 0, N: -1})
	}
	c.Ops = append(c.Ops, VOp{Op: "open", H: 0, Name: "."}, VOp{Op: "readdir", H: 0, N: -1})
	return c
}

func init() {
	suites["vfspar"] = &Suite{Gen: func(rng *rand.Rand, i int) interface{} {
		c := genVfs(rng, i).(VfsCase)
		c.Par = 4
		ops := []VOp{}
		for _, o := range c.Ops {
			if o.Op != "conc" {
				ops = append(ops, o)
			}
		}
		c.Ops = ops
		return c
	}, Exec: execVfs}
	suites["vfs"] = &Suite{Gen: genVfs, Exec: execVfs}
	suites["adv"] = &Suite{Gen: genAdv, Exec: execVfs}
}
