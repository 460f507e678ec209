package main

import (
	"archive/zip"
	"bufio"
	"bytes"
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"hash"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
)

func init() {
	suites["wheel"] = &Suite{Gen: genWheel, Exec: execWheel}
	suites["wheelbad"] = &Suite{Gen: genWheelBad, Exec: execWheel}
	suites["wheelnames"] = &Suite{Gen: genWheelNames, Exec: execWheel}
	suites["wheelep"] = &Suite{Gen: genWheelEP, Exec: execWheel}
	suites["wheelpyc"] = &Suite{Gen: genWheelPyc, Exec: execWheel}
	suites["wheelcli"] = &Suite{Gen: genWheelCLI, Exec: execWheel}
	suites["ini"] = &Suite{Gen: genIni, Exec: execIni}
}

// ---------------------------------------------------------------- cases

type WMember struct {
	N string `json:"n"`           // name
	D string `json:"d"`           // content
	B int64  `json:"b,omitempty"` // seed of more content
	U int    `json:"u,omitempty"` // UNIX mode
	A int    `json:"a,omitempty"` // DOS attributes
	C int    `json:"c,omitempty"` // creator: 0 DOS, 3 UNIX
	T int64  `json:"t"`           // time
	Z bool   `json:"z,omitempty"` // deflate
	X bool   `json:"x,omitempty"` // with the last byte changed
}

func (m WMember) content() []byte {
	bs := []byte(m.D)
	if m.B != 0 {
		bs = append(bs, metaBody(m.B)...)
	}
	if m.X && len(bs) > 0 {
		bs[len(bs)-1] ^= 1
	}
	return bs
}

type WMut struct {
	K string `json:"k"`
	I int    `json:"i"`
	S string `json:"s"`
}

type WHook struct {
	K    string                `json:"k"` // scripts, req, record
	S    string                `json:"s"` // marker of REQUESTED, or installer
	Hash string                `json:"hash,omitempty"`
	URL  *direct_url.DirectURL `json:"url,omitempty"`
}

type WPlat struct {
	Pure string `json:"pure"`
	Plat string `json:"plat"`
	Head string `json:"head"`
	Scr  string `json:"scr"`
	Data string `json:"data"`
	Con  string `json:"con"`
	Gui  string `json:"gui"`
	UID  int    `json:"uid"`
	GID  int    `json:"gid"`
	UN   string `json:"un"`
	GN   string `json:"gn"`
}

func (p WPlat) platform() python.Platform {
	return python.Platform{
		ConsoleShebang: p.Con, GraphicalShebang: p.Gui,
		Scheme: python.Scheme{PureLib: p.Pure, PlatLib: p.Plat, Headers: p.Head, Scripts: p.Scr, Data: p.Data},
		UID:    p.UID, GID: p.GID, UName: p.UN, GName: p.GN,
	}
}

func (p WPlat) j() J {
	c := func(s string) []string { return strings.Split(strings.TrimPrefix(s, "/"), "/") }
	con, gui := p.Con, p.Gui
	if con == "" {
		con = gui
	}
	if gui == "" {
		gui = con
	}
	usable := con != ""
	for _, d := range []string{p.Pure, p.Plat, p.Head, p.Scr, p.Data} {
		usable = usable && strings.HasPrefix(d, "/")
	}
	return J{"usable": usable, "pure": c(p.Pure), "plat": c(p.Plat), "head": c(p.Head), "scr": c(p.Scr), "data": c(p.Data),
		"con": con, "gui": gui, "uid": p.UID, "gid": p.GID, "un": p.UN, "gn": p.GN}
}

type WheelCase struct {
	Name  string    `json:"name"` // NAME-VERSION
	M     []WMember `json:"m"`
	Wheel string    `json:"wheel"` // content of WHEEL
	Algo  string    `json:"algo"`
	Pos   int       `json:"pos"` // where in the archive RECORD is
	Muts  []WMut    `json:"muts"`
	Flips []int64   `json:"flips"`
	Cut   int64     `json:"cut"`
	Plat  WPlat     `json:"plat"`
	Min   int64     `json:"min"`
	Max   int64     `json:"max"`
	Hooks []WHook   `json:"hooks"`
	CLI   bool      `json:"cli"`
	Pyc   string    `json:"pyc"` // the real compiler is used: "default" or how compiled files are to be checked
	Rets  int64     `json:"rets"`
}

var hashers = map[string]func() hash.Hash{
	"md5": md5.New, "sha1": sha1.New, "sha224": sha256.New224, "sha256": sha256.New, "sha384": sha512.New384, "sha512": sha512.New,
}

func recDigest(algo string, bs []byte) string {
	h, ok := hashers[algo]
	if !ok {
		return algo + "=AAAA"
	}
	w := h()
	w.Write(bs)
	return algo + "=" + base64.RawURLEncoding.EncodeToString(w.Sum(nil))
}

func isSig(name string) bool {
	return strings.HasSuffix(name, ".dist-info/RECORD.jws") || strings.HasSuffix(name, ".dist-info/RECORD.p7s")
}

// archive builds the wheel file.
func (c WheelCase) archive() []byte {
	info := c.Name + ".dist-info"
	ms := append([]WMember{}, c.M...)
	if c.Wheel != "-" {
		ms = append(ms, WMember{N: info + "/WHEEL", D: c.Wheel, T: 1500000000, U: 0o100644, C: 3})
	}
	rec := info + "/RECORD"
	type row []string
	var rows []row
	digestOf := func(m WMember, algo string) row {
		bs := m.content()
		return row{m.N, recDigest(algo, bs), fmt.Sprint(len(bs))}
	}
	for _, m := range ms {
		if strings.HasSuffix(m.N, "/") || isSig(m.N) {
			continue
		}
		rows = append(rows, digestOf(m, c.Algo))
	}
	rows = append(rows, row{rec, "", ""})
	mi := func(i int) int { return i % len(ms) }
	ri := func(i int) int { return i % len(rows) }
	for _, mu := range c.Muts {
		if mu.I < 0 {
			mu.I = -mu.I
		}
		if len(ms) == 0 || len(rows) == 0 {
			break
		}
		switch mu.K {
		case "alter":
			m := &ms[mi(mu.I)]
			if m.D == "" {
				m.D = "x"
			} else {
				bs := []byte(m.D)
				bs[len(mu.S)%len(bs)] ^= 1
				m.D = string(bs)
			}
		case "grow":
			ms[mi(mu.I)].D += "x"
		case "tail": // only the last byte
			ms[mi(mu.I)].X = true
		case "empty":
			ms[mi(mu.I)].D, ms[mi(mu.I)].B = "", 0
		case "drop":
			i := mi(mu.I)
			ms = append(append([]WMember{}, ms[:i]...), ms[i+1:]...)
		case "add":
			ms = append(ms, WMember{N: mu.S, D: "new", T: 1500000000})
		case "addlisted":
			m := WMember{N: mu.S, D: "new", T: 1500000000}
			ms = append(ms, m)
			rows = append(rows, digestOf(m, "sha256"))
		case "rename":
			ms[mi(mu.I)].N = mu.S
		case "dup": // the same name with another content
			m := ms[mi(mu.I)]
			m.D += mu.S
			ms = append(ms, m)
		case "dupfirst":
			m := ms[mi(mu.I)]
			m.D += mu.S
			ms = append([]WMember{m}, ms...)
		case "dosdir": // pretend that it is a directory
			ms[mi(mu.I)].A |= 0x10
			ms[mi(mu.I)].C = 0
		case "unixdir":
			ms[mi(mu.I)].U = 0o40755
			ms[mi(mu.I)].C = 3
		case "dirtwin": // a directory of the same name
			m := WMember{N: strings.TrimSuffix(ms[mi(mu.I)].N, "/") + "/", T: 1500000000}
			if len(mu.S)%2 == 0 {
				ms = append(ms, m)
			} else {
				ms = append([]WMember{m}, ms...)
			}
		case "filetwin": // a file of the same name as a directory
			for k := range ms {
				if n := ms[mi(k+mu.I)].N; strings.HasSuffix(n, "/") {
					m := WMember{N: strings.TrimSuffix(n, "/"), D: "twin", T: 1500000000}
					rows = append(rows, digestOf(m, "sha256"))
					if len(mu.S)%2 == 0 {
						ms = append(ms, m)
					} else {
						ms = append([]WMember{m}, ms...)
					}
					break
				}
			}
		case "addblank": // listed without digest and size
			ms = append(ms, WMember{N: mu.S, D: "new", T: 1500000000})
			rows = append(rows, row{mu.S, "", ""})
		case "keeprow": // one row is all that is left
			rows = []row{rows[ri(mu.I)]}
			if len(mu.S)%2 == 0 && len(rows[0]) > 2 {
				rows[0] = row{rows[0][0], rows[0][1], rows[0][2] + "1"}
			}
		case "keepself":
			rows = []row{{rec, "", ""}}
		case "rowtwin": // two rows for a file that do not agree
			r := append(row{}, rows[ri(mu.I)]...)
			if len(r) > 2 && r[1] != "" {
				switch len(mu.S) {
				case 0:
					r[2] += "0"
				case 1:
					r[1], r[2] = "", ""
				default:
					r[1] = "sha256=47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU"
				}
				if mu.I%2 == 0 {
					rows = append(rows, r)
				} else {
					rows = append([]row{r}, rows...)
				}
			}
		case "rowdrop":
			i := ri(mu.I)
			rows = append(append([]row{}, rows[:i]...), rows[i+1:]...)
		case "rowdup":
			rows = append(rows, rows[ri(mu.I)])
		case "rowhash":
			r := append(row{}, rows[ri(mu.I)]...)
			if len(r) > 1 {
				if n := len(r[1]); n > 0 {
					bs := []byte(r[1])
					if bs[n-2] == 'A' {
						bs[n-2] = 'B'
					} else {
						bs[n-2] = 'A'
					}
					r[1] = string(bs)
				} else {
					r[1] = mu.S
				}
			}
			rows[ri(mu.I)] = r
		case "rowflip": // one character of the digest, the letters' case, more or less of it
			r := append(row{}, rows[ri(mu.I)]...)
			if len(r) > 1 {
				if k := strings.IndexByte(r[1], '='); k >= 0 && k+1 < len(r[1]) {
					bs := []byte(r[1])
					at := k + 1 + (mu.I*7+3)%(len(bs)-k-1)
					switch mu.S {
					case "case": // of the first letter from there
						for n := 0; n < len(bs)-k-1; n++ {
							q := k + 1 + (at-k-1+n)%(len(bs)-k-1)
							if ('a' <= bs[q] && bs[q] <= 'z') || ('A' <= bs[q] && bs[q] <= 'Z') {
								bs[q] ^= 0x20
								break
							}
						}
					case "cases":
						bs = append(bs[:k+1], strings.ToUpper(string(bs[k+1:]))...)
					case "char":
						bs[at] = "AbC0_-"[(strings.IndexByte("AbC0_-", bs[at])+1)%6]
					case "std": // the other base64 alphabet
						bs = append(bs[:k+1], strings.NewReplacer("-", "+", "_", "/").Replace(string(bs[k+1:]))...)
					case "cut":
						bs = bs[:at]
					case "more":
						bs = append(bs, bs[at])
					case "space":
						bs = append([]byte(" "), bs...)
					case "space2":
						bs = append(bs, ' ')
					}
					r[1] = string(bs)
				}
			}
			rows[ri(mu.I)] = r
		case "rowalgo":
			r := append(row{}, rows[ri(mu.I)]...)
			for _, m := range ms {
				if m.N == r[0] {
					r = row{m.N, recDigest(mu.S, m.content()), fmt.Sprint(len(m.content()))}
				}
			}
			rows[ri(mu.I)] = r
		case "rowpad": // digest with padding, or in hex, or in upper case
			r := append(row{}, rows[ri(mu.I)]...)
			if len(r) > 1 && r[1] != "" {
				switch mu.S {
				case "pad":
					r[1] += "="
				case "upper":
					r[1] = strings.ToUpper(r[1])
				case "noalgo":
					r[1] = r[1][strings.Index(r[1], "=")+1:]
				case "noval":
					r[1] = r[1][:strings.Index(r[1], "=")+1]
				case "cut":
					r[1] = r[1][:len(r[1])-4]
				}
			}
			rows[ri(mu.I)] = r
		case "rowsize":
			r := append(row{}, rows[ri(mu.I)]...)
			if len(r) > 2 {
				r[2] = mu.S
			}
			rows[ri(mu.I)] = r
		case "rownohash":
			r := append(row{}, rows[ri(mu.I)]...)
			r[1] = ""
			rows[ri(mu.I)] = r
		case "rownosize":
			r := append(row{}, rows[ri(mu.I)]...)
			if len(r) > 2 {
				r[2] = ""
			}
			rows[ri(mu.I)] = r
		case "rowname":
			r := append(row{}, rows[ri(mu.I)]...)
			r[0] = mu.S
			rows[ri(mu.I)] = r
		case "rowspell": // another spelling of the same name
			r := append(row{}, rows[ri(mu.I)]...)
			r[0] = "./" + strings.Replace(r[0], "/", "//", 1)
			rows[ri(mu.I)] = r
		case "rowadd":
			rows = append(rows, row{mu.S, recDigest("sha256", []byte("x")), "1"})
		case "rowcols":
			r := append(row{}, rows[ri(mu.I)]...)
			rows[ri(mu.I)] = append(r, mu.S)
		case "swap": // exchange the contents of two members
			i, j := mi(mu.I), mi(mu.I+1)
			ms[i].D, ms[j].D = ms[j].D, ms[i].D
			ms[i].B, ms[j].B = ms[j].B, ms[i].B
		case "norecord":
			rec = mu.S
		case "moveinfo": // the dist-info directory has another name
			mv := func(n string) string {
				if n == info || strings.HasPrefix(n, info+"/") {
					return mu.S + n[len(info):]
				}
				return n
			}
			for i := range ms {
				ms[i].N = mv(ms[i].N)
			}
			for i := range rows {
				if len(rows[i]) > 0 {
					rows[i] = append(row{mv(rows[i][0])}, rows[i][1:]...)
				}
			}
			rec = mv(rec)
		}
	}
	var rb bytes.Buffer
	crlf := c.Pos%2 == 1
	for _, r := range rows {
		cw := csv.NewWriter(&rb)
		cw.UseCRLF = crlf
		must(cw.Write(r))
		cw.Flush()
	}
	if rec != "" {
		m := WMember{N: rec, D: rb.String(), T: 1500000000, U: 0o100644, C: 3}
		at := len(ms)
		if c.Pos < len(ms) {
			at = c.Pos
		}
		ms = append(append(append([]WMember{}, ms[:at]...), m), ms[at:]...)
	}
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, m := range ms {
		h := &zip.FileHeader{Name: m.N, CreatorVersion: uint16(m.C)<<8 | 20, ExternalAttrs: uint32(m.U)<<16 | uint32(m.A)}
		if m.T != 0 {
			h.Modified = time.Unix(m.T, 0).UTC()
		}
		if m.Z {
			h.Method = zip.Deflate
		}
		w, err := zw.CreateHeader(h)
		must(err)
		if !strings.HasSuffix(m.N, "/") {
			_, err = w.Write(m.content())
			must(err)
		}
	}
	must(zw.Close())
	bs := buf.Bytes()
	for _, f := range c.Flips {
		if f < 0 {
			f = -f
		}
		p := f % (int64(len(bs)) * 8)
		bs[p/8] ^= 1 << (p % 8)
	}
	if c.Cut != 0 {
		bs = bs[:c.Cut%int64(len(bs))]
	}
	return bs
}

func printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return false
		}
	}
	return true
}

// asciiLines splits a text in lines; ok: it is ASCII.
func asciiLines(bs []byte) ([]string, bool) {
	for _, b := range bs {
		if b > 126 || (b < 32 && b != '\n' && b != '\r' && b != '\t') {
			return []string{}, false
		}
	}
	return strings.Split(string(bs), "\n"), true
}

// membersJ reads the archive independently of the code under test.
func membersJ(bs []byte, plat J) (ms []J, hashes map[string]bool, zok, skip bool) {
	ms, hashes = []J{}, map[string]bool{}
	zr, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs)))
	if err != nil {
		return ms, hashes, false, false
	}
	for _, f := range zr.File {
		if !printable(f.Name) {
			skip = true
		}
		c, ab := comps(f.Name)
		if len(c) == 0 {
			c = []string{""}
		}
		dir := strings.HasSuffix(f.Name, "/")
		var content []byte
		ok := true
		if f.UncompressedSize64 > 64<<20 {
			ok = false
		} else if rc, err := f.Open(); err != nil {
			ok = false
		} else {
			content, err = io.ReadAll(rc)
			rc.Close()
			ok = err == nil
		}
		t := f.Modified
		if t.Unix() <= 0 || t.Unix() > 2000000000 {
			skip = true
		}
		head := content
		if len(head) > 9 {
			head = head[:9]
		}
		m := J{"c": c, "ab": ab, "dir": dir, "um": int(f.ExternalAttrs >> 16), "s": t.Unix(), "n": t.Nanosecond(), "size": fmt.Sprint(len(content)), "ok": ok,
			"dig":  []string{recDigest("sha256", content), recDigest("sha384", content), recDigest("sha512", content)},
			"data": hash8(content), "head": ascii(string(head)), "asCon": "", "asGui": "", "lines": []string{}, "rok": false, "rows": []string{}}
		if dir {
			m["size"] = fmt.Sprint(f.UncompressedSize64)
		}
		hashes[hash8(content)] = true
		if bytes.HasPrefix(content, []byte("#!python")) {
			m["asCon"] = hash8([]byte("#!" + plat["con"].(string) + string(content[8:])))
			hashes[m["asCon"].(string)] = true
		}
		if bytes.HasPrefix(content, []byte("#!pythonw")) {
			m["asGui"] = hash8([]byte("#!" + plat["gui"].(string) + string(content[9:])))
			hashes[m["asGui"].(string)] = true
		}
		switch path.Base(path.Clean("/" + f.Name)) {
		case "WHEEL", "entry_points.txt":
			ls, fine := asciiLines(content)
			if !fine {
				skip = true
			}
			m["lines"] = ls
		case "RECORD":
			if !dir {
				rows, err := csv.NewReader(bytes.NewReader(content)).ReadAll()
				m["rok"] = err == nil
				for _, r := range rows {
					for _, x := range r {
						if !printable(x) {
							skip = true
						}
					}
				}
				if err == nil && rows != nil {
					m["rows"] = rows
				}
			}
		}
		ms = append(ms, m)
	}
	return ms, hashes, true, skip
}

type srcSeen struct{ name, data, out string }

// standIn is a compiler that compiles nothing and writes nothing to disk.
func standIn(seen *[]srcSeen) python.Compiler {
	return func(_ context.Context, clamp time.Time, _ []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
		var ret []fsutil.FileReference
		for _, f := range in {
			rc, err := f.Open()
			if err != nil {
				return nil, err
			}
			bs, err := io.ReadAll(rc)
			if err != nil {
				return nil, err
			}
			if err := rc.Close(); err != nil {
				return nil, err
			}
			name := f.FullName()
			out := []byte("compiled " + name + " " + hash8(bs))
			*seen = append(*seen, srcSeen{name, hash8(bs), hash8(out)})
			oname := path.Join(path.Dir(name), "__pycache__", strings.TrimSuffix(path.Base(name), ".py")+".standin.pyc")
			ret = append(ret, &fsutil.InMemFileReference{
				FileInfo:  plainInfo{name: path.Base(oname), size: int64(len(out)), mode: 0o644, mt: clamp},
				MFullName: oname, MContent: out,
			})
		}
		return ret, nil
	}
}

// ---------------------------------------------------------------- running generated scripts

var epProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// runScript runs a generated script with python3 and stubs for the modules it may import.
func runScript(content []byte, mods []string, ret interface{}) J {
	if epProc.cmd == nil {
		cmd := exec.Command("python3", "-I", "-S", filepath.Join(os.Getenv("VERIF_BIN"), "epstub.py"))
		in, err := cmd.StdinPipe()
		must(err)
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		epProc.cmd, epProc.in, epProc.out = cmd, in, bufio.NewReader(out)
	}
	bs, err := json.Marshal(J{"script": string(content), "mods": mods, "ret": ret})
	must(err)
	_, err = epProc.in.Write(append(bs, '\n'))
	must(err)
	line, err := epProc.out.ReadBytes('\n')
	must(err)
	var ev J
	must(json.Unmarshal(line, &ev))
	return ev
}

// ---------------------------------------------------------------- running cases

func (c WheelCase) hook(plat python.Platform) bdist.PostInstallHook {
	var hooks []bdist.PostInstallHook
	for _, h := range c.Hooks {
		switch h.K {
		case "scripts":
			hooks = append(hooks, entry_points.CreateScripts(plat))
		case "req":
			hooks = append(hooks, pep376.RecordRequested(h.S))
		case "record":
			hooks = append(hooks, recording_installs.Record(h.Hash, h.S, h.URL))
		}
	}
	return bdist.PostInstallHooks(hooks...)
}

func execWheel(raw json.RawMessage) interface{} {
	var c WheelCase
	decode(raw, &c)
	dir := scratchDir()
	defer dropDir(dir)
	bs := c.archive()
	file := filepath.Join(dir, c.Name+"-py3-none-any.whl")
	must(os.WriteFile(file, bs, 0o644))
	pj := c.Plat.j()
	ms, known, zok, skip := membersJ(bs, pj)
	if c.CLI {
		c.Hooks = []WHook{{K: "scripts"}, {K: "record", S: "ocibuild layer wheel", Hash: "sha256"}}
		c.Min, c.Max = 0, 0
	}
	ev := J{"k": "wheel", "zok": zok, "skip": skip, "ms": ms, "plat": pj, "min": []int64{}, "max": []int64{}, "err": "", "out": []J{}, "sums": []string{},
		"srcs": []J{}, "runs": []J{}, "cli": c.CLI, "real": c.CLI || c.Pyc != "", "inval": c.Pyc, "tag": "standin", "left": []string{}}
	if c.Min != 0 {
		ev["min"] = []int64{c.Min}
	}
	if c.Max != 0 {
		ev["max"] = []int64{c.Max}
	}
	algo := "sha256"
	hooks := []J{}
	var wantURL interface{}
	for _, h := range c.Hooks {
		hooks = append(hooks, J{"k": h.K, "s": h.S, "hash": h.Hash, "url": h.URL != nil})
		if h.K == "record" {
			if h.Hash != "" {
				algo = h.Hash
			}
			if h.URL != nil {
				wantURL = *h.URL
			}
		}
	}
	ev["hooks"] = hooks
	var tarBytes []byte
	if c.CLI {
		ev["tag"] = "cpython-312"
		tarBytes = c.viaCLI(dir, file, ev)
	} else {
		plat := c.Plat.platform()
		var first []srcSeen
		var real python.Compiler
		tmp := filepath.Join(dir, "tmp")
		if c.Pyc != "" {
			ev["tag"] = "cpython-312"
			line := []string{"python3", "-m", "compileall", "-q"}
			if c.Pyc != "default" {
				line = append(line, "--invalidation-mode", c.Pyc)
			}
			var err error
			real, err = python.ExternalCompiler(line...)
			must(err)
			must(os.Mkdir(tmp, 0o755))
			must(os.Unsetenv("SOURCE_DATE_EPOCH"))
		}
		for run := 0; run < 3; run++ {
			var seen []srcSeen
			plat.PyCompile = standIn(&seen)
			if real != nil {
				plat.PyCompile = real
			}
			var min, max time.Time
			if c.Min != 0 {
				min = time.Unix(c.Min, 0)
			}
			if c.Max != 0 {
				max = time.Unix(c.Max, 0)
			}
			restore := func() {}
			if real != nil {
				restore = tempTMPDIR(tmp)
			}
			layer, err := bdist.InstallWheel(context.Background(), plat, min, max, file, c.hook(plat), fastLayer)
			restore()
			if err != nil {
				ev["err"] = "x" + ascii(err.Error())
				if layer != nil {
					ev["sums"] = []string{"a layer and an error"}
				}
				if run > 0 {
					ev["sums"] = append(ev["sums"].([]string), "error")
				}
				break
			}
			tb, err := layerBytes(layer)
			if err != nil {
				ev["err"] = "x" + ascii(err.Error())
				break
			}
			ev["sums"] = append(ev["sums"].([]string), hash8(tb))
			if run == 0 {
				tarBytes, first = tb, seen
			}
		}
		srcs := []J{}
		for _, s := range first {
			sc, _ := comps(s.name)
			srcs = append(srcs, J{"c": sc, "data": s.data, "out": s.out})
		}
		ev["srcs"] = srcs
		if c.Pyc != "" {
			left := []string{}
			des, err := os.ReadDir(tmp)
			must(err)
			for _, e := range des {
				left = append(left, ascii(e.Name()))
			}
			ev["left"] = left
		}
	}
	if ev["err"] != "" {
		return ev
	}
	ents, err := readTar(tarBytes)
	must(err)
	out := []J{}
	var mods []string
	eps := map[string]bool{}
	for _, e := range ents {
		if path.Base(e.Hdr.Name) == "entry_points.txt" {
			for _, w := range strings.FieldsFunc(string(e.Body), func(r rune) bool { return strings.ContainsRune("= \t\r\n[", r) }) {
				if i := strings.IndexByte(w, ':'); i > 0 && !eps[w[:i]] {
					eps[w[:i]] = true
					mods = append(mods, w[:i])
				}
			}
		}
	}
	if mods == nil {
		mods = []string{}
	}
	rets := []interface{}{0, 3, nil, "text", true, 1}
	scr := strings.TrimPrefix(path.Clean(c.Plat.Scr), "/")
	runs := []J{}
	for i, e := range ents {
		if !printable(e.Hdr.Name) {
			ev["skip"] = true
		}
		nc, ab := comps(e.Hdr.Name)
		o := J{"name": e.Hdr.Name, "c": nc, "ab": ab, "t": typeName(e.Hdr.Typeflag), "link": e.Hdr.Linkname, "mode": e.Hdr.Mode, "uid": e.Hdr.Uid, "gid": e.Hdr.Gid,
			"un": e.Hdr.Uname, "gn": e.Hdr.Gname, "s": e.Hdr.ModTime.Unix(), "data": "", "size": fmt.Sprint(len(e.Body)), "dig": "", "txt": "*", "line1": "", "rec": []string{}, "recok": false, "url": ""}
		if typeName(e.Hdr.Typeflag) == "reg" {
			o["data"] = hash8(e.Body)
			o["dig"] = recDigest(algo, e.Body)
			if c.CLI || c.Pyc != "" {
				if strings.HasSuffix(e.Hdr.Name, ".py") {
					o["py"] = pySource(e.Hdr.Name, e.Body)
				} else if strings.HasSuffix(e.Hdr.Name, ".pyc") {
					o["py"] = pyCompiled(e.Body)
				}
			}
			base := path.Base(e.Hdr.Name)
			if !strings.HasSuffix(path.Dir(path.Clean(e.Hdr.Name)), c.Name+".dist-info") {
				base = ""
			}
			switch base { // metadata of the distribution
			case "INSTALLER", "REQUESTED":
				if len(e.Body) < 200 {
					o["txt"] = strings.ReplaceAll(ascii(strings.ReplaceAll(string(e.Body), "\n", "~")), "~", "\n")
				}
			case "RECORD":
				if rows, err := csv.NewReader(bytes.NewReader(e.Body)).ReadAll(); err == nil && rows != nil {
					ok := true
					for _, r := range rows {
						for _, x := range r {
							ok = ok && printable(x)
						}
					}
					if ok {
						o["rec"], o["recok"] = rows, true
					}
				}
			case "direct_url.json":
				if wantURL != nil {
					var got, want interface{}
					wb, _ := json.Marshal(wantURL)
					must(json.Unmarshal(wb, &want))
					if err := json.Unmarshal(e.Body, &got); err != nil {
						o["url"] = "not JSON"
					} else {
						g, _ := json.Marshal(got)
						w, _ := json.Marshal(want)
						o["url"] = map[bool]string{true: "same", false: "other"}[bytes.Equal(g, w)]
					}
				}
			}
			if path.Dir(path.Clean("/"+e.Hdr.Name)) == path.Clean("/"+scr) && !known[hash8(e.Body)] && !strings.HasSuffix(e.Hdr.Name, ".pyc") {
				line1 := string(e.Body)
				if k := strings.IndexByte(line1, '\n'); k >= 0 {
					line1 = line1[:k]
				}
				o["line1"] = ascii(line1)
				want := rets[(int(c.Rets)+i)%len(rets)]
				r := runScript(e.Body, mods, want)
				r["name"] = ascii(path.Base(e.Hdr.Name))
				wb, _ := json.Marshal(want)
				r["want"] = string(wb)
				r["line1"] = ascii(line1)
				runs = append(runs, r)
			}
		}
		out = append(out, o)
	}
	ev["out"], ev["runs"] = out, runs
	return ev
}

// viaCLI runs "ocibuild layer wheel" twice, as an unprivileged user, with its temporary directory deep inside of a
// directory in which anything that it leaves behind is seen.
func (c WheelCase) viaCLI(dir, file string, ev J) []byte {
	must(os.Chmod(dir, 0o755))
	pf := filepath.Join(dir, "plat.yaml")
	y := J{"ConsoleShebang": c.Plat.Con, "GraphicalShebang": c.Plat.Gui,
		"Scheme": J{"purelib": c.Plat.Pure, "platlib": c.Plat.Plat, "headers": c.Plat.Head, "scripts": c.Plat.Scr, "data": c.Plat.Data},
		"UID":    c.Plat.UID, "GID": c.Plat.GID, "UName": c.Plat.UN, "GName": c.Plat.GN, "PyCompile": []string{"python3", "-m", "compileall", "-q"}}
	yb, err := json.Marshal(y)
	must(err)
	must(os.WriteFile(pf, yb, 0o644))
	var tarBytes []byte
	sums := []string{}
	left := []string{}
	for run, umask := range []string{"022", "077", "000"} {
		if run == 2 && c.Rets%3 != 0 {
			break
		}
		deep := filepath.Join(dir, fmt.Sprintf("deep%d", run))
		tmp := filepath.Join(deep, "1", "2", "3", "4", "5", "6", "tmp")
		must(os.MkdirAll(tmp, 0o777))
		cwd := filepath.Join(deep, "1", "2", "3", "4", "5", "6", "cwd")
		must(os.MkdirAll(cwd, 0o777))
		before := map[string]bool{}
		must(filepath.Walk(deep, func(p string, _ os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			before[p] = true
			if os.Geteuid() == 0 {
				return os.Chown(p, 65534, 65534)
			}
			return nil
		}))
		cmd := exec.Command("sh", "-c", "umask "+umask+"; exec \"$0\" \"$@\"", os.Getenv("VERIF_OCIBUILD"), "layer", "wheel", "--platform-file="+pf, file)
		cmd.Dir = cwd
		cmd.Env = append(envWithout("TMPDIR", "HOME", "PYTHONPYCACHEPREFIX"), "TMPDIR="+tmp, "HOME="+cwd, fmt.Sprintf("TZ=Etc/GMT%+d", run*3))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if os.Geteuid() == 0 {
			cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
		}
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		must(cmd.Start())
		late := time.AfterFunc(cmdLimit, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		werr := cmd.Wait()
		if !late.Stop() {
			ev["err"] = "xtimed out"
			ev["left"] = append(left, "timed out")
			return nil
		}
		_ = filepath.Walk(deep, func(p string, _ os.FileInfo, err error) error {
			if err == nil && !before[p] {
				left = append(left, ascii(strings.TrimPrefix(p, dir)))
			}
			return nil
		})
		ev["left"] = left
		if werr != nil {
			if _, ok := werr.(*exec.ExitError); !ok {
				must(werr)
			}
			ev["err"] = "x" + ascii(e.String())
			if strings.Contains(e.String(), "goroutine ") {
				ev["left"] = append(left, "a crash")
			}
			if run > 0 {
				ev["sums"] = append(sums, "error")
			} else if o.Len() != 0 {
				ev["sums"] = []string{"a layer and an error"}
			}
			return nil
		}
		ob := o.Bytes()
		if len(ob) > 2 && ob[0] == 0x1f {
			ob, err = gunzip(ob)
			if err != nil {
				ev["err"] = "x" + err.Error()
				return nil
			}
		}
		sums = append(sums, hash8(o.Bytes()))
		if run == 0 {
			tarBytes = ob
		}
	}
	ev["sums"] = sums
	return tarBytes
}

// ---------------------------------------------------------------- generating wheels

var wheelPlats = []WPlat{
	{Pure: "/usr/lib/python3.9/site-packages", Plat: "/usr/lib64/python3.9/site-packages", Head: "/usr/include/python3.9/", Scr: "/usr/bin", Data: "/usr", Con: "/usr/bin/python3.9", Gui: "/usr/bin/pythonw", UID: 0, GID: 0, UN: "root", GN: "root"},
	{Pure: "/opt/p/lib", Plat: "/opt/p/lib", Head: "/opt/p/inc", Scr: "/opt/p/bin", Data: "/opt/p", Con: "/opt/p/bin/python", UID: 1000, GID: 1001, UN: "me", GN: "us"},
	{Pure: "/a//b/./c/", Plat: "/a/b/../x", Head: "/h", Scr: "/s//bin/", Data: "/", Gui: "/usr/bin/env python3 -x", UID: 65534, GID: 7, UN: "", GN: "g"},
	{Pure: "/site", Plat: "/site/plat", Head: "/site/h", Scr: "/site/bin", Data: "/site/data", Con: "/py", Gui: "/pyw", UID: 3000000, GID: 3000001, UN: "big", GN: "big"},
	{Pure: "/p1/lib", Plat: "/p2/lib", Head: "/p3/inc/x", Scr: "/p4/y/bin", Data: "/p5/share/z", Con: "/c", Gui: "/g", UID: 12, GID: 13, UN: "n", GN: ""},
	{Pure: "/usr/lib/py", Plat: "/usr/lib/py/lib-dynload", Head: "/opt/inc/py", Scr: "/usr/lib/py/bin", Data: "/var/data", Con: "/usr/bin/python3", Gui: "/usr/bin/pythonw3", UID: 5, GID: 6, UN: "root", GN: "wheel"},
	{Pure: "/.venv/lib.", Plat: "/.venv/lib ", Head: "/ inc", Scr: "/.venv/.bin", Data: "/...", Con: "/.venv/.bin/python", Gui: "/g w", UID: 1000, GID: 0, UN: "a b", GN: "0"},
	{Pure: "/", Plat: "/x", Head: "/h", Scr: "/", Data: "/", Con: "/p", Gui: "/q", UID: 1, GID: 2, UN: "u", GN: "g"},
	{Pure: "//opt/./lib/", Plat: "/../opt/lib64", Head: "///h", Scr: "//opt//bin", Data: "/.//opt/d/..", Con: "/opt/bin/py", Gui: "/opt/bin/pyw", UID: 1, GID: 2, UN: "u", GN: "g"},
}

// platforms that cannot be used: no interpreter, or a directory that is not absolute
var badPlats = []WPlat{
	{Pure: "/l", Plat: "/l", Head: "/h", Scr: "/b", Data: "/d"},
	{Pure: "l", Plat: "/l", Head: "/h", Scr: "/b", Data: "/d", Con: "/p"},
	{Pure: "/l", Plat: "./l", Head: "/h", Scr: "/b", Data: "/d", Con: "/p"},
	{Pure: "/l", Plat: "/l", Head: "", Scr: "/b", Data: "/d", Con: "/p"},
	{Pure: "/l", Plat: "/l", Head: "/h", Scr: "../b", Data: "/d", Gui: "/p"},
	{Pure: "/l", Plat: "/l", Head: "/h", Scr: "/b", Data: "d/e", Con: "/p", Gui: "/g"},
}

func randPlat(rng *rand.Rand) WPlat {
	if chance(rng, 30) {
		return badPlats[rng.Intn(len(badPlats))]
	}
	return wheelPlats[rng.Intn(len(wheelPlats))]
}

var pySources = []string{"", "x = 1\n", "import os\n\ndef f():\n    return 3\n", "# -*- coding: utf-8 -*-\n", "class A:\n    pass\n", "pass"}

func wheelTime(rng *rand.Rand) int64 {
	ts := []int64{1000000000, 1500000000, 1500000001, 1600000000, 1700000002, 1300000000, 0}
	return ts[rng.Intn(len(ts))]
}

func wheelMember(rng *rand.Rand, name string) WMember {
	m := WMember{N: name, T: wheelTime(rng), Z: chance(rng, 2)}
	switch rng.Intn(6) {
	case 0:
		m.C, m.U = 3, 0o100755
	case 1:
		m.C, m.U = 3, 0o100644
	case 2: // Windows
		m.C, m.A = 0, 0x20
	case 3:
		m.C, m.U = 3, []int{0o100600, 0o100700, 0o100611, 0o100666, 0o100777, 0o104755, 0o100010, 0o100001}[rng.Intn(8)]
	case 4: // executable, but not a regular file
		m.C, m.U = 3, []int{0o755, 0o120777, 0o40755, 0, 0o20755, 0o120644}[rng.Intn(6)]
	case 5: // a UNIX mode from a DOS archive
		m.C, m.U, m.A = 0, 0o100755, 0x21
	}
	if strings.HasSuffix(name, "/") {
		m.C, m.U, m.A = 3, 0o40755, 0x10
		if chance(rng, 3) {
			m.U = 0o40700
		}
		return m
	}
	switch {
	case strings.HasSuffix(name, ".py"):
		m.D = pySources[rng.Intn(len(pySources))]
	case chance(rng, 3):
		m.B = rng.Int63n(1000) + 1
	default:
		m.D = pick(rng, "", "x", "hello\n", "a,b\n\"q\"\n", "#!python\n", "#!/bin/sh\n")
	}
	return m
}

var wheelNames = []string{"pkg/__init__.py", "pkg/mod.py", "pkg/data.bin", "pkg/sub/x.txt", "single.py", "pkg/a b.txt", "pkg/c,d.txt", "pkg/q\"q.txt", "top.txt", "pkg/run.sh", "pkg-other/x.so",
	"pkg.libs/lib.so", "pkg/__pycache__/mod.cpython-312.pyc", "pkg/mod.pyc", "pkg/", "pkg/sub/", "empty/", "pkg/deep/er/than/that.py", "pkg/.hidden", "pkg/~x", "PKG/Mod.py", "a.data/scripts/x", "back\\slash.txt",
	"pkg/" + strings.Repeat("long", 30) + ".py", "dir.py/", "dir.py/x.txt", "pkg/percent%41.txt"}

var dataNames = []string{"scripts/run", "scripts/tool.py", "scripts/gui", "scripts/bin.exe", "scripts/", "data/share/man/x.1", "data/etc/conf", "data/", "headers/h.h", "headers/sub/i.h", "headers/",
	"purelib/pkg/extra.py", "purelib/other.py", "platlib/ext.so", "platlib/pkg/ext2.so", "scripts/sub/nested", "scripts/sub/", "data/share/"}

var scriptTexts = []string{"#!python\nprint(1)\n", "#!pythonw\nprint(1)\n", "#!python3 -x\n", "#!python", "#!pythonw", "#!pytho", "#!/usr/bin/python\n", "#!pythonwx\n", "#! python\n", "", "x#!python\n", "#!python\r\nx\r\n", "#!pythonw -O\nx"}

// randMember makes a name out of common pieces.
func randMember(rng *rand.Rand) string {
	parts := []string{"pkg", "a", "b_c", "x.y", "__pycache__", "tests", "n1", "z-9", "data", "scripts", "purelib", "dist-info", "Lib", "src.py"}
	exts := []string{"", ".py", ".pyc", ".pyi", ".pyo", ".so", ".txt", ".jws", ".p7s", ".json", ".PY", ".py.txt", ".cpython-39.pyc", ".dist-info.txt", ".exe", ".pth"}
	var b strings.Builder
	for n := rng.Intn(4); n > 0; n-- {
		b.WriteString(parts[rng.Intn(len(parts))] + "/")
	}
	return b.String() + parts[rng.Intn(len(parts))] + exts[rng.Intn(len(exts))]
}

// nearName makes a name that resembles those with a meaning.
func nearName(rng *rand.Rand, name string) string {
	switch rng.Intn(6) {
	case 0:
		return name + pick(rng, ".data.d/", ".data-x/", ".datax/", ".Data/", ".data /") + pick(rng, "x.txt", "scripts/run", "purelib/m.py")
	case 1:
		return pick(rng, "other-1.0", "x"+name, "pkg/"+name, strings.ToUpper(name)) + ".data/" + pick(rng, "scripts/run", "data/x", "purelib/m.py")
	case 2:
		return name + pick(rng, ".dist-info.bak/", ".dist-info-x/", ".dist-infos/", ".Dist-Info/") + pick(rng, "METADATA", "RECORD", "RECORD.jws", "entry_points.txt", "WHEEL")
	case 3:
		return pick(rng, "pkg/", "x/y/") + name + ".dist-info/" + pick(rng, "METADATA", "RECORD", "RECORD.p7s", "entry_points.txt", "WHEEL")
	case 4:
		return pick(rng, "RECORD", "WHEEL", "INSTALLER", "entry_points.txt", "RECORD.jws", "pkg/RECORD", "pkg/RECORD.p7s", "REQUESTED")
	default:
		return name + ".dist-info/" + pick(rng, "licenses/LICENSE", "record", "RECORD.txt", "RECORD/x", "entry_points.txt.py", "x.py", "top_level.txt", "sub/INSTALLER", "RECORDS")
	}
}

func wheelText(rng *rand.Rand) string {
	ver := pick(rng, "1.0", "1.0", "1.0", "1.1", "1", "1.9", "0.9", "1.0.0", "1.0a1")
	pure := pick(rng, "true", "true", "false", "-")
	nl := pick(rng, "\n", "\n", "\r\n")
	lines := []string{pick(rng, "Wheel-Version", "wheel-version", "WHEEL-VERSION") + pick(rng, ": ", ":", ":  ") + ver, "Generator: x (0.1)", "Tag: py3-none-any"}
	if pure != "-" {
		lines = append(lines, pick(rng, "Root-Is-Purelib", "root-is-purelib")+": "+pure)
	}
	if chance(rng, 3) {
		rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	}
	t := strings.Join(lines, nl)
	return t + pick(rng, nl, nl, "", nl+nl)
}

func goodWheel(rng *rand.Rand) WheelCase {
	c := WheelCase{Name: pick(rng, "dist-1.0", "my_dist-2.0.post1", "D.x-0"), Algo: pick(rng, "sha256", "sha256", "sha384", "sha512"), Muts: []WMut{}, Flips: []int64{}, Hooks: []WHook{}, M: []WMember{},
		Plat: randPlat(rng), Wheel: wheelText(rng), Rets: rng.Int63n(1000)}
	info, data := c.Name+".dist-info/", c.Name+".data/"
	seen := map[string]bool{}
	add := func(m WMember) {
		k := path.Clean(m.N)
		if !seen[k] {
			seen[k] = true
			c.M = append(c.M, m)
		}
	}
	for n := rng.Intn(7); n > 0; n-- {
		add(wheelMember(rng, wheelNames[rng.Intn(len(wheelNames))]))
	}
	if chance(rng, 2) {
		add(wheelMember(rng, randMember(rng)))
	}
	if chance(rng, 3) {
		add(wheelMember(rng, nearName(rng, c.Name)))
	}
	if chance(rng, 6) {
		add(wheelMember(rng, data+pick(rng, "scripts/", "data/", "headers/", "purelib/", "platlib/")+randMember(rng)))
	}
	for n := rng.Intn(6) - 1; n > 0; n-- {
		m := wheelMember(rng, data+dataNames[rng.Intn(len(dataNames))])
		if strings.Contains(m.N, "/scripts/") && !strings.HasSuffix(m.N, "/") && !strings.HasSuffix(m.N, ".py") && chance(rng, 2) {
			m.D, m.B = scriptTexts[rng.Intn(len(scriptTexts))], 0
			if chance(rng, 4) && m.D != "" {
				m.D, m.B = "#!python\n", rng.Int63n(1000)+1
			}
		}
		add(m)
	}
	if chance(rng, 4) {
		add(wheelMember(rng, data))
	}
	add(wheelMember(rng, info+"METADATA"))
	if chance(rng, 4) {
		add(wheelMember(rng, info))
	}
	if chance(rng, 4) {
		add(wheelMember(rng, info+pick(rng, "RECORD.jws", "RECORD.p7s")))
	}
	if chance(rng, 6) {
		add(wheelMember(rng, info+pick(rng, "INSTALLER", "REQUESTED", "direct_url.json", "LICENSE", "sub/RECORD")))
	}
	if chance(rng, 2) {
		m := wheelMember(rng, info+"entry_points.txt")
		m.D, m.B = goodEntryPoints(rng), 0
		add(m)
	}
	c.Pos = rng.Intn(len(c.M) + 3)
	if chance(rng, 3) {
		c.Min = pickInt(rng, 1400000000, 1550000000, 1800000000)
	}
	if chance(rng, 2) {
		c.Max = pickInt(rng, 1450000000, 1500000000, 1650000000, 1900000000)
	}
	if !chance(rng, 5) {
		c.Hooks = append(c.Hooks, WHook{K: "scripts"})
	}
	if chance(rng, 2) {
		c.Hooks = append(c.Hooks, WHook{K: "req", S: pick(rng, "", "# by hand", "x y")})
	}
	if !chance(rng, 5) {
		h := WHook{K: "record", S: pick(rng, "pip", "ocibuild layer wheel", ""), Hash: pick(rng, "", "sha256", "sha256", "sha512", "sha384", "md5", "sha1", "sha224")}
		if chance(rng, 30) {
			h.Hash = pick(rng, "SHA256", "sha", "crc32", "sha256 ")
		}
		if chance(rng, 2) {
			h.URL = &direct_url.DirectURL{URL: pick(rng, "https://example.com/a.whl?x=1&y=<2>", "file:///a b/\"c\".whl", "")}
			switch rng.Intn(4) {
			case 0:
				h.URL.VCSInfo = &direct_url.VCSInfo{VCS: "git", CommitID: "abc", RequestedRevision: pick(rng, "", "v1")}
			case 1:
				h.URL.ArchiveInfo = &direct_url.ArchiveInfo{Hash: pick(rng, "", "sha256=00")}
			case 2:
				h.URL.DirInfo = &direct_url.DirInfo{Editable: chance(rng, 2)}
			}
			if chance(rng, 8) {
				h.URL.ArchiveInfo = &direct_url.ArchiveInfo{}
				h.URL.DirInfo = &direct_url.DirInfo{Editable: true}
			}
		}
		c.Hooks = append(c.Hooks, h)
	}
	return c
}

func pickInt(rng *rand.Rand, ns ...int64) int64 { return ns[rng.Intn(len(ns))] }

func genWheel(rng *rand.Rand, i int) interface{} { return goodWheel(rng) }

func genWheelBad(rng *rand.Rand, i int) interface{} {
	c := goodWheel(rng)
	info := c.Name + ".dist-info/"
	if i%4 == 0 {
		for n := 1 + rng.Intn(2); n > 0; n-- {
			c.Flips = append(c.Flips, rng.Int63())
		}
		if chance(rng, 6) {
			c.Cut = rng.Int63()
		}
		return c
	}
	kinds := []string{"alter", "tail", "tail", "rowflip", "rowflip", "alter", "grow", "empty", "drop", "add", "addlisted", "rename", "dup", "dupfirst", "dosdir", "unixdir", "rowdrop", "rowdup", "rowhash", "rowalgo", "rowalgo", "rowpad", "rowsize", "rownohash", "rownosize", "rowname", "rowspell", "rowadd", "rowcols", "swap", "norecord", "moveinfo", "wheel", "dirtwin", "filetwin", "addblank", "keeprow", "keepself", "rowtwin"}
	for n := 1 + rng.Intn(3); n > 0; n-- {
		m := WMut{K: kinds[rng.Intn(len(kinds))], I: rng.Intn(20)}
		switch m.K {
		case "alter":
			m.S = strings.Repeat("x", rng.Intn(6))
		case "add", "addlisted", "rename":
			m.S = pick(rng, "new.txt", "pkg/new.py", "other-1.0.dist-info/METADATA", info+"RECORD.jws", info+"RECORD.p7s", info+"record", c.Name+".data/what/x", c.Name+".data/scripts", c.Name+".data", "pkg", "pkg/mod.py/below", "top.dist-info", info+"sub/RECORD.jws", "x/"+info+"RECORD", "RECORD.jws", "pkg/x.p7s", info+"x.jws", info+"RECORD.txt", info+"RECORD.jws.py", "x/"+info+"RECORD.p7s", "x."+info+"METADATA", c.Name+".dist-info", "."+info+"x", randMember(rng))
		case "addblank":
			m.S = pick(rng, "pkg/RECORD", "x/"+info+"RECORD", "RECORD", info+"sub/RECORD", info+"RECORD.txt", info+"WHEEL2", "pkg/RECORD.jws", "new.txt", info+"record", "pkg/"+info+"RECORD")
		case "dup", "dupfirst", "dirtwin", "filetwin", "keeprow", "rowtwin":
			m.S = pick(rng, "", "y", "evil")
		case "rowalgo":
			m.S = pick(rng, "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "", "SHA256", "sha3_256")
		case "rowflip":
			m.S = pick(rng, "case", "case", "cases", "char", "char", "std", "cut", "more", "space", "space2")
		case "rowpad":
			m.S = pick(rng, "pad", "upper", "noalgo", "noval", "cut")
		case "rowsize":
			m.S = pick(rng, "0", "1", "-1", "x", "00", "3", " 1", "1.0", "18446744073709551617")
		case "rowhash":
			m.S = pick(rng, "sha256=47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU", "md5=x")
		case "rowname", "rowadd":
			m.S = pick(rng, "missing.txt", "pkg/mod.py", "pkg", "../up", "/abs", "", info+"RECORD", info+"RECORD.jws", "pkg/../top.txt")
		case "rowcols":
			m.S = pick(rng, "", "more")
		case "moveinfo":
			m.S = pick(rng, c.Name, c.Name+".dist-infos", c.Name+".Dist-Info", "x/"+c.Name+".dist-info", c.Name+".data", c.Name+".data/purelib/"+c.Name+".dist-info", c.Name+"dist-info", "pkg")
		case "norecord":
			m.S = pick(rng, "", info+"RECORDS", "RECORD", info+"record", "./"+info+"RECORD", info+"/RECORD")
		case "wheel":
			c.Wheel = pick(rng, "Wheel-Version: 2.0\n", "Wheel-Version: 10.0\nRoot-Is-Purelib: true\n", "Root-Is-Purelib: true\n", "Wheel-Version\n", "Wheel-Version: x\n", "-", "", "Wheel-Version: 2\nWheel-Version: 1.0\n", "\nWheel-Version: 1.0\n", "Wheel-Version: 1.0\njunk\n", "Wheel-Version:\n", "Wheel-Version: 1.99\n", "Wheel-Version: 2.dev1\n")
			continue
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

// genWheelNames makes wheels whose members have hostile names.
func genWheelNames(rng *rand.Rand, i int) interface{} {
	c := goodWheel(rng)
	data := c.Name + ".data/"
	hostile := []string{"../x.py", "../../../x", "/etc/passwd", "/x.py", "a/../../x", "a/../x.py", "./pkg//mod.py", "pkg/./mod.py", "..", ".", "", "./", "pkg/..", "..\\..\\x", "C:\\x", "...", "..x/y.py", "a/..b", "~/x", "pkg/../../../../x.py",
		data + "scripts/../../x", data + "../x.py", data + "scripts/../x", data + "purelib/../../x.py", data + "scripts/..", data + "data/../../../etc/x", data + "/scripts/x", data + "scripts//x", data + "./scripts/./y.py", data + "purelib/pkg/mod.py", data + "platlib/pkg/mod.py",
		data + "data/lib/pkg/mod.py", data + "data/bin/x", data + "data/plat/pkg/mod.py", data + "scripts/pkg/mod.py", data + "headers", data + "unknown/x", data + "Scripts/x", data + "x", data + "purelib/" + c.Name + ".dist-info/METADATA",
		data + "purelib/" + c.Name + ".dist-info/entry_points.txt", data + "platlib/../../x", "pkg/mod.py/x.py", "pkg/mod.py/", "pkg", "x/" + c.Name + ".data/scripts/y", data + "data/usr/bin/x", "//x.py", "/" + c.Name + ".dist-info/x", "/" + data + "scripts/z"}
	for n := 1 + rng.Intn(3); n > 0; n-- {
		m := wheelMember(rng, hostile[rng.Intn(len(hostile))])
		at := rng.Intn(len(c.M) + 1)
		c.M = append(append(append([]WMember{}, c.M[:at]...), m), c.M[at:]...)
	}
	if chance(rng, 3) {
		c.M = append(c.M, wheelMember(rng, "pkg/mod.py"))
	}
	if chance(rng, 4) {
		m := wheelMember(rng, c.Name+".dist-info/entry_points.txt")
		m.D, m.B = "[console_scripts]\n"+pick(rng, "../x", "/x", "..", ".", "a/b", "a\\b", "", "~", "x y", "../../x.py", "...", "run", "tool.py")+" = m:f\n", 0
		c.M = append(c.M, m)
	}
	return c
}

var epMods = []string{"pkgm", "pkgm.sub", "m_x", "P1.q2.r", "a_b.c_d", "__m__"}
var epObjs = []string{"main", "Cls.run", "_f", "obj.attr.call", "F1", "do_it", "my_Cls.run_it", "a1.b2", "_p._q_", "importer"}
var epNames = []string{"run", "my-tool", "tool.py", "Tool", "tool", "a b", "x:y", "3to4", "#no", "run ", "é"[:0] + "e", "gui", "a;b", "[x", "t\tt"}

func goodEntryPoints(rng *rand.Rand) string {
	var b strings.Builder
	used := map[string]bool{}
	for _, s := range []string{"console_scripts", "gui_scripts", "other.group"} {
		if chance(rng, 3) {
			continue
		}
		both := chance(rng, 4) // the name of a console script may also be that of a graphical one
		var here []string
		if both {
			for name := range used {
				here = append(here, name)
			}
			sort.Strings(here)
			used = map[string]bool{}
		}
		fmt.Fprintf(&b, "[%s]\n", s)
		for n := rng.Intn(3); n > 0; n-- {
			name := pick(rng, "run", "my-tool", "tool.py", "Tool", "tool", "gui", "x:y", "3to4", "a b", "run.", ".x", "tool..", "-x", "run_2", "r\"q", "it's", "TOOL", "r"+fmt.Sprint(rng.Intn(5)))
			if len(here) > 0 && chance(rng, 2) {
				name = pick(rng, here...)
			}
			if used[name] {
				continue
			}
			used[name] = true
			fmt.Fprintf(&b, "%s%s%s%s:%s%s\n", name, pick(rng, " = ", "=", "= ", " ="), pick(rng, "", "", "\n  "), epMods[rng.Intn(len(epMods))], epObjs[rng.Intn(len(epObjs))], pick(rng, "", "", "", " [extra]", " [a,b]", "[x]", "  "))
			if chance(rng, 5) {
				b.WriteString(pick(rng, "\n", "# comment\n", "; c\n", "  # c\n", "\n\n"))
			}
		}
	}
	return b.String()
}

var epLines = []string{"[console_scripts]", "[gui_scripts]", "[other]", " [console_scripts]", "[console_scripts ]", "[Console_Scripts]", "", "  ", "# c", "; c", "  # indented", "\trun = pkgm:main", "run = pkgm:main", "run=pkgm:main", "Run = pkgm.sub:Cls.run [e]", "gui = m_x:_f",
	"gui = m_x:_f # not a comment", "t1 = pkgm", "t2 = pkgm:", "t3 = :main", "t4 = pkgm:a:b", "t5 = pkgm:main extra", "t6 = pkgm.:main", "t7 = .pkgm:main", "t8 = pkgm:main.", "t9 = pkgm:ma in", "u1 =", "u2", "u3 = pkgm:main()", "u4 = pkg-m:main", "= pkgm:main", "u5 == pkgm:main",
	"u6 : pkgm:main", "  pkgm:main", "  [x]", "    pkgm.sub:Cls.run", "  cont", "u7 = pkgm:main[x]", "u8 = pkgm:main [x] y", "u9 = pkgm:main [", "v1 = pkgm:main ]", "v2 = pkgm:main []", "a/b = pkgm:main", "v3 = pkgm:F1", "\t", "v4 = ", "x:y = m_x:main", "v5 = P1.q2.r:obj.attr.call"}

func genWheelEP(rng *rand.Rand, i int) interface{} {
	c := goodWheel(rng)
	info := c.Name + ".dist-info/"
	var ms []WMember
	for _, m := range c.M {
		if m.N != info+"entry_points.txt" {
			ms = append(ms, m)
		}
	}
	var lines []string
	if !chance(rng, 8) {
		lines = append(lines, pick(rng, "[console_scripts]", "[console_scripts]", "[gui_scripts]", "[other]"))
	}
	for n := 1 + rng.Intn(5); n > 0; n-- {
		lines = append(lines, epLines[rng.Intn(len(epLines))])
	}
	m := wheelMember(rng, info+"entry_points.txt")
	nl := pick(rng, "\n", "\n", "\n", "\r\n")
	m.D, m.B = strings.Join(lines, nl)+pick(rng, nl, ""), 0
	if i%3 == 0 {
		m.D = goodEntryPoints(rng)
	}
	c.M = append(ms, m)
	has := false
	for _, h := range c.Hooks {
		has = has || h.K == "scripts"
	}
	if !has {
		c.Hooks = append([]WHook{{K: "scripts"}}, c.Hooks...)
	}
	return c
}

func genWheelCLI(rng *rand.Rand, i int) interface{} {
	var c WheelCase
	switch i % 4 {
	case 0, 1:
		c = goodWheel(rng)
	case 2:
		c = genWheelNames(rng, i).(WheelCase)
	case 3:
		c = genWheelEP(rng, i).(WheelCase)
		if chance(rng, 3) {
			c = genWheelBad(rng, 1+rng.Intn(3)).(WheelCase)
		}
	}
	validSources(rng, &c)
	c.CLI = true
	return c
}

// genWheelPyc makes wheels with many sources, for the real compiler.
func genWheelPyc(rng *rand.Rand, _ int) interface{} {
	c := goodWheel(rng)
	have := map[string]bool{}
	for _, m := range c.M {
		have[strings.TrimSuffix(m.N, "/")] = true
	}
	data := c.Name + ".data/"
	for n := 1 + rng.Intn(3); n > 0; n-- {
		nm := pick(rng, "p0/", "p0/q/", "", data+"purelib/p1/", data+"platlib/p2/", data+"scripts/", data+"data/p3/") + pick(rng, "m.py", "__init__.py", "x.y.py", "a-b.py", "U.py")
		if !have[nm] {
			have[nm] = true
			m := wheelMember(rng, nm)
			m.D, m.B = pycTexts[rng.Intn(len(pycTexts))], 0
			if strings.Contains(nm, "/scripts/") && chance(rng, 2) {
				m.D = pick(rng, "#!python\nx = 1\n", "#!pythonw -x\ny = 2\n", "#!python")
			}
			c.M = append(c.M, m)
		}
	}
	validSources(rng, &c)
	c.Pyc = pick(rng, "default", "default", "default", "timestamp", "timestamp", "checked-hash", "unchecked-hash")
	return c
}

// validSources makes the sources such that compileall compiles them: it does not look for them in __pycache__.
func validSources(rng *rand.Rand, c *WheelCase) {
	for k := range c.M {
		if strings.HasSuffix(path.Clean(c.M[k].N), ".py") {
			c.M[k].N = strings.ReplaceAll(c.M[k].N, "__pycache__/", "cache/")
		}
		if strings.HasSuffix(path.Clean(c.M[k].N), ".py") && c.M[k].B != 0 {
			c.M[k].B = 0
		}
		if strings.HasSuffix(path.Clean(c.M[k].N), ".py") && !strings.HasPrefix(c.M[k].D, "#") {
			c.M[k].D = pySources[rng.Intn(len(pySources))]
		}
	}
}

// ---------------------------------------------------------------- config files

type IniCase struct {
	Text    []string `json:"text"`
	NL      string   `json:"nl"`
	Strict  bool     `json:"strict"`
	Empties bool     `json:"empties"`
	EP      bool     `json:"ep"` // as entry_points.txt is read
}

func genIni(rng *rand.Rand, i int) interface{} {
	c := IniCase{Strict: !chance(rng, 4), Empties: !chance(rng, 4), EP: chance(rng, 2), NL: pick(rng, "\n", "\n", "\r\n"), Text: []string{}}
	pool := append([]string{"[a]", "[b]", "x = 1", "X=2", "y: 3", "  cont", "    more", "", " ", "#c", " ;c", "z", "k = ", " k2 = v", "[a]", "x = a = b", "x : b = c", "=", "a==b", "\t[c]", "[ a]", "long = line # c"}, epLines...)
	for n := rng.Intn(8) + 1; n > 0; n-- {
		c.Text = append(c.Text, pool[rng.Intn(len(pool))])
	}
	if chance(rng, 2) {
		c.Text = append([]string{"[a]"}, c.Text...)
	}
	return c
}

func execIni(raw json.RawMessage) interface{} {
	var c IniCase
	decode(raw, &c)
	if c.NL == "" {
		c.NL = "\n"
	}
	p := python.NewConfigParser()
	if c.EP {
		p.OptionTransform = func(s string) string { return s }
		p.Delimiters = []string{"="}
	} else {
		p.Strict, p.EmptyLinesInValues = c.Strict, c.Empties
	}
	text := strings.Join(c.Text, c.NL)
	cfg, err := p.Parse(strings.NewReader(text))
	cfg2, err2 := p.Parse(strings.NewReader(text + c.NL))
	ev := J{"k": "ini", "lines": strings.Split(text, "\n"), "strict": c.Strict || c.EP, "empties": c.Empties || c.EP, "ep": c.EP, "err": err != nil, "secs": []string{}, "opts": [][]string{},
		"same": (err == nil) == (err2 == nil) && fmt.Sprint(cfg) == fmt.Sprint(cfg2)}
	if err != nil {
		return ev
	}
	secs, opts := []string{}, [][]string{}
	for s, m := range cfg {
		secs = append(secs, s)
		for k, v := range m {
			opts = append(opts, []string{s, k, v})
		}
	}
	sort.Strings(secs)
	sort.Slice(opts, func(i, j int) bool { return fmt.Sprint(opts[i]) < fmt.Sprint(opts[j]) })
	ev["secs"], ev["opts"] = secs, opts
	return ev
}
