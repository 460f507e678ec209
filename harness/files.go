package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"os/user"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"golang.org/x/sys/unix"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/reproducible"
)

func init() {
	suites["refs"] = &Suite{Gen: genRefs, Exec: execRefs}
	suites["now"] = &Suite{Gen: genNow, Exec: execNow}
	suites["dir"] = &Suite{Gen: genDir, Exec: execDir}
	suites["diff"] = &Suite{Gen: genDiff, Exec: execDiff}
	suites["gobuild"] = &Suite{Gen: genGobuild, Exec: execGobuild}
}

func scratchDir() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case-")
	must(err)
	return d
}

// dropDir removes a scratch directory made by scratchDir.
func dropDir(d string) {
	if d == "" || !strings.Contains(filepath.Base(d), "case-") {
		panic(driverError{fmt.Errorf("refusing to remove %q", d)})
	}
	// what was started may outlive the call that should have waited for it, and still be writing
	for i := 0; os.RemoveAll(d) != nil && i < 20; i++ {
		time.Sleep(50 * time.Millisecond)
	}
}

// Node is one file of a tree.
type Node struct {
	C    []string `json:"c"`
	T    string   `json:"t"`
	Ino  int      `json:"ino"`
	Link string   `json:"link"`
	Mode int      `json:"mode"`
	UID  int      `json:"uid"`
	GID  int      `json:"gid"`
	UN   string   `json:"un"`
	GN   string   `json:"gn"`
	S    int64    `json:"s"`
	N    int64    `json:"n"`
	Data string   `json:"data"`
	Len  int      `json:"len,omitempty"`  // the content is Data repeated up to this length
	Bad  string   `json:"bad,omitempty"`  // how reading the file fails: open, read, or it is short or long
	Late bool     `json:"late,omitempty"` // it was accessed and changed a day after it was modified
}

func (n Node) content() []byte {
	if n.T != "reg" {
		return nil
	}
	if n.Len == 0 || n.Data == "" {
		return []byte(n.Data)
	}
	return bytes.Repeat([]byte(n.Data), n.Len/len(n.Data)+1)[:n.Len]
}

func (n Node) j() J {
	d := ""
	if n.T == "reg" {
		d = hash8(n.content())
	}
	return J{"c": n.C, "t": n.T, "ino": n.Ino, "link": n.Link, "mode": n.Mode, "uid": n.UID, "gid": n.GID, "un": n.UN, "gn": n.GN, "s": n.S, "n": n.N, "data": d}
}

func nodesJ(ns []Node) []J {
	ret := make([]J, 0, len(ns))
	for _, n := range ns {
		ret = append(ret, n.j())
	}
	return ret
}

func outJ(bs []byte) ([]J, error) {
	ents, err := readTar(bs)
	ret := make([]J, 0, len(ents))
	for _, e := range ents {
		d := ""
		if e.Hdr.Typeflag == tar.TypeReg {
			d = hash8(e.Body)
		}
		ret = append(ret, J{"name": e.Hdr.Name, "t": typeName(e.Hdr.Typeflag), "link": e.Hdr.Linkname, "mode": e.Hdr.Mode, "uid": e.Hdr.Uid, "gid": e.Hdr.Gid,
			"un": e.Hdr.Uname, "gn": e.Hdr.Gname, "s": e.Hdr.ModTime.Unix(), "data": d})
	}
	return ret, err
}

var partNames = []string{"a", "a-b", "a.b", "b", "B", "~x", "sp ace", "a0", "ab", "zz-" + strings.Repeat("long", 30), "0", "a!", "c"}

func randTime(rng *rand.Rand) (int64, int64) {
	s := []int64{0, 1, 999, 1000, 1001, 1500000000, 1700000000, 2000000000, -1, -5000}[rng.Intn(10)]
	n := []int64{0, 0, 0, 1, 400000000, 500000000, 999999999}[rng.Intn(7)]
	return s, n
}

// randTree makes the nodes of a random tree in a random order of creation that is possible.
func randTree(rng *rand.Rand, max int, links bool) []Node {
	var ret []Node
	have := map[string]bool{}
	dirs := [][]string{{}}
	ino := 0
	for i, n := 0, rng.Intn(max+1); i < n; i++ {
		parent := dirs[rng.Intn(len(dirs))]
		c := append(append([]string{}, parent...), partNames[rng.Intn(len(partNames))])
		key := strings.Join(c, "/")
		if have[key] {
			continue
		}
		have[key] = true
		ino++
		nd := Node{C: c, Ino: ino, T: "reg", Mode: []int{0o644, 0o755, 0o600, 0o4755, 0o2711, 0o1777, 0o444, 0, 0o6777}[rng.Intn(9)]}
		nd.UID = []int{0, 0, 12345, 2000000}[rng.Intn(4)]
		nd.GID = []int{0, 0, 54321, 2000001}[rng.Intn(4)]
		nd.S, nd.N = randTime(rng)
		switch k := rng.Intn(12); {
		case k < 4:
			nd.T = "dir"
			dirs = append(dirs, c)
		case k < 6:
			nd.T = "sym"
			nd.Mode = 0o777
			nd.Link = []string{"a", "../b", "/abs/x", "nope", strings.Repeat("l/", 70) + "x", ".", "./a", "b//c/", "x/../y", "/"}[rng.Intn(10)]
		case k == 6 && links:
			nd.T = "fifo"
		case k < 9 && links && len(ret) > 0:
			o := ret[rng.Intn(len(ret))]
			if o.T != "dir" {
				c := nd.C
				nd = o
				nd.C = c
				break
			}
			fallthrough
		default:
			nd.Data = []string{"", "x", "hello\n", "\x00\x01bin"}[rng.Intn(4)]
			nd.Len = []int{0, 0, 0, 511, 512, 513, 1024, 5000}[rng.Intn(8)]
			nd.Data = strings.ToValidUTF8(nd.Data, "")
		}
		ret = append(ret, nd)
	}
	return ret
}

// ---------------------------------------------------------------- refs

type RefsCase struct {
	Nodes []Node `json:"nodes"`
	CS    int64  `json:"cs"`
	CN    int64  `json:"cn"`
	Seed  int64  `json:"seed"`
}

func genRefs(rng *rand.Rand, i int) interface{} {
	c := RefsCase{Nodes: randTree(rng, 14, false), Seed: rng.Int63n(1 << 30)}
	c.CS, c.CN = randTime(rng)
	for i := range c.Nodes {
		c.Nodes[i].UN = []string{"", "root", "user"}[rng.Intn(3)]
		c.Nodes[i].GN = []string{"", "root", "group"}[rng.Intn(3)]
		if c.Nodes[i].T == "sym" {
			c.Nodes[i].T, c.Nodes[i].Link = "reg", ""
		}
	}
	for i := range c.Nodes {
		c.Nodes[i].Late = chance(rng, 4)
	}
	if n := len(c.Nodes); n > 0 && chance(rng, 6) {
		if x := &c.Nodes[rng.Intn(n)]; x.T == "reg" {
			x.Bad = pick(rng, "open", "read", "short", "long")
		}
	}
	if chance(rng, 3) { // names that are not part of a tree
		for i := range c.Nodes {
			if c.Nodes[i].T == "reg" && chance(rng, 2) {
				c.Nodes[i].C = append([]string{"q", fmt.Sprint(i)}, c.Nodes[i].C...)
			}
		}
	}
	return c
}

// plainInfo is a fs.FileInfo without a system-specific part.
type plainInfo struct {
	name string
	size int64
	mode fs.FileMode
	mt   time.Time
}

func (i plainInfo) Name() string       { return i.name }
func (i plainInfo) Size() int64        { return i.size }
func (i plainInfo) Mode() fs.FileMode  { return i.mode }
func (i plainInfo) ModTime() time.Time { return i.mt }
func (i plainInfo) IsDir() bool        { return i.mode.IsDir() }
func (i plainInfo) Sys() interface{}   { return nil }

// badRef is a file that cannot be read to its end as it says.
type badRef struct {
	*fsutil.InMemFileReference
	bad string
}

type badReader struct {
	io.Reader
	bad string
}

var errBad = fmt.Errorf("the file cannot be read")

func (r badReader) Read(bs []byte) (int, error) {
	n, err := r.Reader.Read(bs)
	if r.bad == "read" && err == io.EOF {
		err = errBad
	}
	return n, err
}

func (r badReader) Close() error { return nil }

func (f badRef) Open() (io.ReadCloser, error) {
	if f.bad == "open" {
		return nil, errBad
	}
	return badReader{bytes.NewReader(f.MContent), f.bad}, nil
}

func (n Node) ref() fsutil.FileReference {
	name := strings.Join(n.C, "/")
	hdr := &tar.Header{Name: name, Typeflag: typeFlags[n.T], Mode: int64(n.Mode), Uid: n.UID, Gid: n.GID, Uname: n.UN, Gname: n.GN, ModTime: time.Unix(n.S, n.N), Size: int64(len(n.content()))}
	if n.Late {
		hdr.AccessTime, hdr.ChangeTime = hdr.ModTime.Add(24*time.Hour), hdr.ModTime.Add(25*time.Hour)
	}
	if n.Bad != "" {
		more := append(n.content(), 'x')
		switch n.Bad {
		case "open": // what it says is right
		case "read":
			hdr.Size++
		case "short":
			hdr.Size += 700
		case "long":
			hdr.Size = 0
		}
		return badRef{&fsutil.InMemFileReference{FileInfo: hdr.FileInfo(), MFullName: name, MContent: more}, n.Bad}
	}
	if n.UID == 0 && n.GID == 0 && n.UN == "" && n.GN == "" {
		return &fsutil.InMemFileReference{FileInfo: plainInfo{n.C[len(n.C)-1], hdr.Size, hdr.FileInfo().Mode(), hdr.ModTime}, MFullName: name, MContent: n.content()}
	}
	return &fsutil.InMemFileReference{FileInfo: hdr.FileInfo(), MFullName: name, MContent: n.content()}
}

func execRefs(raw json.RawMessage) interface{} {
	var c RefsCase
	decode(raw, &c)
	rng := rand.New(rand.NewSource(c.Seed))
	ev := J{"k": "refs", "files": nodesJ(c.Nodes), "cs": c.CS, "cn": c.CN, "err": "", "out": []J{}, "bad": false, "late": 0}
	for _, n := range c.Nodes {
		if n.Bad != "" {
			ev["bad"] = true
		}
	}
	sums := []string{}
	for k := 0; k < 4; k++ {
		var refs []fsutil.FileReference
		for _, n := range c.Nodes {
			refs = append(refs, n.ref())
		}
		if k > 0 {
			rng.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
		}
		clamp := time.Unix(c.CS, c.CN)
		if k == 2 {
			clamp = clamp.In(time.FixedZone("X", 3600))
		}
		layer, err := fsutil.LayerFromFileReferences(refs, clamp, fastLayer)
		if err != nil {
			ev["err"] = ascii(err.Error())
			break
		}
		bs, err := layerBytes(layer)
		if err != nil {
			ev["err"] = ascii(err.Error())
			break
		}
		sums = append(sums, hash8(bs))
		if k == 0 {
			out, err := outJ(bs)
			if err != nil {
				ev["err"] = "the layer cannot be read: " + ascii(err.Error())
			}
			ev["out"] = out
			ents, _ := readTar(bs)
			n := 0 // of entries with another time after the clamp time
			for _, e := range ents {
				if e.Hdr.AccessTime.After(clamp.Add(time.Second)) || e.Hdr.ChangeTime.After(clamp.Add(time.Second)) {
					n++
				}
			}
			ev["late"] = n
		}
	}
	ev["sums"] = sums
	return ev
}

func ascii(s string) string {
	bs := []byte(s)
	for i := range bs {
		if bs[i] < 32 || bs[i] > 126 {
			bs[i] = '?'
		}
	}
	if len(bs) > 2000 {
		bs = bs[:2000]
	}
	return string(bs)
}

// ---------------------------------------------------------------- now

type NowCase struct {
	Set bool   `json:"set"`
	Val string `json:"val"`
}

func genNow(rng *rand.Rand, i int) interface{} {
	vals := []string{"0", "1", "-1", "+5", "007", "-0", "1700000000", "4102444800", "99999999999", "", " 5", "5 ", "1.5", "0x10", "abc", "1_000", "-", "123456789012345678", "99999999999999999999999"}
	if i < len(vals) {
		return NowCase{true, vals[i]}
	}
	if i == len(vals) {
		return NowCase{}
	}
	return NowCase{true, strconv.Itoa(rng.Intn(2000000000) - 100000)}
}

// nowHelper runs in a process of its own, because the time is decided once per process.
func nowHelper() {
	t0 := time.Now().Unix()
	res := make([]time.Time, 16)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i%4 == 3 {
				time.Sleep(3 * time.Millisecond)
			}
			res[i] = reproducible.Now()
		}(i)
	}
	wg.Wait()
	vals, nanos := []string{}, []string{}
	for _, t := range res {
		vals = append(vals, strconv.FormatInt(t.Unix(), 10))
		nanos = append(nanos, strconv.Itoa(t.Nanosecond()))
	}
	must(json.NewEncoder(os.Stdout).Encode(J{"k": "now", "vals": vals, "nanos": nanos, "t0": strconv.FormatInt(t0, 10), "t1": strconv.FormatInt(time.Now().Unix(), 10)}))
}

func execNow(raw json.RawMessage) interface{} {
	var c NowCase
	decode(raw, &c)
	cmd := exec.Command(os.Args[0], "now", "now")
	cmd.Env = envWithout("SOURCE_DATE_EPOCH")
	if c.Set {
		cmd.Env = append(cmd.Env, "SOURCE_DATE_EPOCH="+c.Val)
	}
	out, err := cmd.Output()
	must(err)
	ev := J{}
	must(json.Unmarshal(out, &ev))
	ev["set"], ev["val"] = c.Set, c.Val
	return ev
}

func envWithout(names ...string) []string {
	var ret []string
outer:
	for _, kv := range os.Environ() {
		for _, n := range names {
			if strings.HasPrefix(kv, n+"=") {
				continue outer
			}
		}
		ret = append(ret, kv)
	}
	return ret
}

// ---------------------------------------------------------------- dir

type DirOpts struct {
	Prefix string `json:"prefix"`
	PMode  int    `json:"pmode"`
	PUID   int    `json:"puid"`
	PGID   int    `json:"pgid"`
	PUN    string `json:"pun"`
	PGN    string `json:"pgn"`
	ChOwn  bool   `json:"chown"`
	CUID   int    `json:"cuid"`
	CGID   int    `json:"cgid"`
	CUN    string `json:"cun"`
	CGN    string `json:"cgn"`
	CS     int64  `json:"cs"`
	CN     int64  `json:"cn"`
}

func (o DirOpts) j() J {
	raw, ab := comps(o.Prefix)
	mode := o.PMode
	if mode == 0 {
		mode = 0o755
	}
	r := J{"pre": []string{}, "rawpre": raw, "preab": ab, "pmode": mode, "puid": o.PUID, "pgid": o.PGID, "pun": o.PUN, "pgn": o.PGN,
		"cuid": -1, "cgid": -1, "cun": "", "cgn": "", "cs": o.CS, "cn": o.CN}
	if o.ChOwn {
		r["cuid"], r["cgid"], r["cun"], r["cgn"] = o.CUID, o.CGID, o.CUN, o.CGN
	}
	return r
}

type DirCase struct {
	Nodes []Node  `json:"nodes"`
	O     DirOpts `json:"o"`
	Root  string  `json:"root"` // dir, link, file, none, slash
	CLI   bool    `json:"cli"`
}

func genDir(rng *rand.Rand, i int) interface{} {
	c := DirCase{Nodes: randTree(rng, 12, true), Root: "dir", CLI: chance(rng, 2)}
	switch rng.Intn(20) {
	case 0:
		c.Root = "link"
	case 1:
		c.Root = "file"
	case 2:
		c.Root = "none"
	case 3:
		c.Root = "slash"
	case 4:
		c.Root = "dot"
	}
	c.O = randDirOpts(rng)
	return c
}

func randDirOpts(rng *rand.Rand) DirOpts {
	o := DirOpts{}
	o.CS, o.CN = randTime(rng)
	if chance(rng, 2) {
		o.Prefix = []string{"usr", "usr/local/bin", "usr/", "./usr", "a//b", "a/../b", "/usr", "..", "../x", ".", "/", "x/./y/", "a-b/c"}[rng.Intn(13)]
		o.PMode = []int{0, 0, 0o700, 0o1777}[rng.Intn(4)]
		o.PUID = rng.Intn(3) * 7
		o.PGID = rng.Intn(3) * 5
		o.PUN = []string{"", "root", "pu"}[rng.Intn(3)]
		o.PGN = []string{"", "root", "pg"}[rng.Intn(3)]
	}
	if chance(rng, 2) {
		o.ChOwn = true
		o.CUID = []int{-1, 0, 5, 3000000}[rng.Intn(4)]
		o.CGID = []int{-1, 0, 6, 3000001}[rng.Intn(4)]
		o.CUN = []string{"", "root", "cu"}[rng.Intn(3)]
		o.CGN = []string{"", "root", "cg"}[rng.Intn(3)]
	}
	return o
}

// makeTree makes the nodes below root, in the given order.
func makeTree(root string, nodes []Node) {
	first := map[int]string{}
	var made []Node
	for _, n := range nodes {
		p := filepath.Join(append([]string{root}, n.C...)...)
		if f, ok := first[n.Ino]; ok && n.T != "dir" {
			must(os.Link(f, p))
			continue
		}
		first[n.Ino] = p
		switch n.T {
		case "dir":
			must(os.Mkdir(p, 0o755))
		case "sym":
			must(os.Symlink(n.Link, p))
		case "fifo":
			must(unix.Mkfifo(p, 0o600))
		default:
			must(os.WriteFile(p, n.content(), 0o600))
		}
		made = append(made, n)
	}
	for i := len(made) - 1; i >= 0; i-- {
		n := made[i]
		p := filepath.Join(append([]string{root}, n.C...)...)
		must(os.Lchown(p, n.UID, n.GID))
		if n.T != "sym" {
			must(unix.Chmod(p, uint32(n.Mode)))
		}
	}
	// children are made after their parents, so this order never touches a directory again
	for i := len(made) - 1; i >= 0; i-- {
		n := made[i]
		p := filepath.Join(append([]string{root}, n.C...)...)
		ts := []unix.Timespec{{Sec: n.S, Nsec: n.N}, {Sec: n.S, Nsec: n.N}}
		must(unix.UtimesNanoAt(unix.AT_FDCWD, p, ts, unix.AT_SYMLINK_NOFOLLOW))
	}
}

// otherOrder is another order in which the tree can be made.
func otherOrder(nodes []Node) []Node {
	ret := append([]Node{}, nodes...)
	sort.SliceStable(ret, func(i, j int) bool {
		if len(ret[i].C) != len(ret[j].C) {
			return len(ret[i].C) < len(ret[j].C)
		}
		return strings.Join(ret[i].C, "/") > strings.Join(ret[j].C, "/")
	})
	return ret
}

func userName(id int) string {
	if u, err := user.LookupId(strconv.Itoa(id)); err == nil {
		return u.Username
	}
	return ""
}

func groupName(id int) string {
	if g, err := user.LookupGroupId(strconv.Itoa(id)); err == nil {
		return g.Name
	}
	return ""
}

func execDir(raw json.RawMessage) interface{} {
	var c DirCase
	decode(raw, &c)
	if c.Root == "" { // from TLC: only the shape of the tree
		c.Root = "dir"
		rng := rand.New(rand.NewSource(int64(len(raw))))
		c.O = randDirOpts(rng)
		c.O.Prefix = []string{"", "usr/x"}[len(raw)%2]
		c.CLI = len(c.Nodes)%4 == 3
		for i := range c.Nodes {
			c.Nodes[i].Mode, c.Nodes[i].S = 0o640, 1000
			if c.Nodes[i].T == "sym" {
				c.Nodes[i].Mode = 0o777
			}
		}
	}
	if c.CLI {
		c.O.PMode, c.O.CN = 0, 0
		if !c.O.ChOwn {
			c.O.ChOwn, c.O.CUID, c.O.CGID, c.O.CUN, c.O.CGN = true, -1, -1, "", ""
		}
	}
	root := c.Root
	if root == "link" || root == "slash" || root == "dot" {
		root = "dir"
	}
	d := scratchDir()
	defer dropDir(d)
	ev := J{"k": "dir", "err": "", "out": []J{}, "root": root}
	sums := []string{}
	for k := 0; k < 2; k++ {
		nodes := c.Nodes
		if k == 1 {
			nodes = otherOrder(nodes)
		}
		in := filepath.Join(d, fmt.Sprint("t", k))
		arg := in
		switch c.Root {
		case "file":
			must(os.WriteFile(in, []byte("x"), 0o600))
		case "none":
		default:
			must(os.Mkdir(in, 0o755))
			makeTree(in, nodes)
			if c.Root == "link" {
				arg = filepath.Join(d, fmt.Sprint("l", k))
				must(os.Symlink(filepath.Base(in), arg))
			} else if c.Root == "slash" {
				arg = in + "//"
			} else if c.Root == "dot" {
				arg = filepath.Dir(in) + "/./" + filepath.Base(in) + "/."
			}
		}
		var bs []byte
		var err error
		if c.CLI {
			var se []byte
			var rc int
			args := []string{"layer", "dir"}
			// every other time, flags that ask for what is the default anyway are left out
			flag := func(name, val, def string) {
				if k%2 == 1 || val != def {
					args = append(args, "--"+name+"="+val)
				}
			}
			flag("prefix", c.O.Prefix, "")
			flag("prefix-uid", fmt.Sprint(c.O.PUID), "0")
			flag("prefix-uname", c.O.PUN, "root")
			flag("prefix-gid", fmt.Sprint(c.O.PGID), "0")
			flag("prefix-gname", c.O.PGN, "root")
			flag("chown-uid", fmt.Sprint(c.O.CUID), "-1")
			flag("chown-uname", c.O.CUN, "")
			flag("chown-gid", fmt.Sprint(c.O.CGID), "-1")
			flag("chown-gname", c.O.CGN, "")
			args = append(args, "--", arg)
			rc, bs, se = runCLI([]string{"SOURCE_DATE_EPOCH=" + fmt.Sprint(c.O.CS)}, "", args...)
			if rc != 0 {
				err = fmt.Errorf("exit %d: %s", rc, se)
			}
		} else {
			var pre *dir.Prefix
			if c.O.Prefix != "" {
				pre = &dir.Prefix{DirName: c.O.Prefix, Mode: c.O.PMode, Ownership: dir.Ownership{UID: c.O.PUID, UName: c.O.PUN, GID: c.O.PGID, GName: c.O.PGN}}
			}
			var own *dir.Ownership
			if c.O.ChOwn {
				own = &dir.Ownership{UID: c.O.CUID, UName: c.O.CUN, GID: c.O.CGID, GName: c.O.CGN}
			}
			var layer ociv1.Layer
			layer, err = dir.LayerFromDir(arg, pre, own, time.Unix(c.O.CS, c.O.CN), fastLayer)
			if err == nil {
				bs, err = layerBytes(layer)
			}
		}
		if err != nil {
			ev["err"] = ascii(err.Error())
			break
		}
		sums = append(sums, hash8(bs))
		if k == 0 {
			out, err := outJ(bs)
			if err != nil {
				ev["err"] = "the layer cannot be read: " + ascii(err.Error())
			}
			ev["out"] = out
		}
	}
	for i := range c.Nodes {
		c.Nodes[i].UN, c.Nodes[i].GN = userName(c.Nodes[i].UID), groupName(c.Nodes[i].GID)
	}
	ev["nodes"], ev["o"], ev["sums"] = nodesJ(c.Nodes), c.O.j(), sums
	return ev
}

// runCLI runs the ocibuild command.
func runCLI(env []string, cwd string, args ...string) (rc int, stdout, stderr []byte) {
	return runCmd(env, cwd, append([]string{os.Getenv("VERIF_OCIBUILD")}, args...)...)
}

// A command that takes longer than cmdLimit is ended, with exit status timedOut.
const (
	cmdLimit = 15 * time.Second
	timedOut = 124
)

func runCmd(env []string, cwd string, args ...string) (rc int, stdout, stderr []byte) {
	return runCmdLimit(cmdLimit, env, cwd, args...)
}

func runCmdLimit(limit time.Duration, env []string, cwd string, args ...string) (rc int, stdout, stderr []byte) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Dir = cwd
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	late := time.AfterFunc(limit, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	if !late.Stop() {
		return timedOut, nil, nil
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), o.Bytes(), e.Bytes()
		}
		must(err)
	}
	return 0, o.Bytes(), e.Bytes()
}

// ---------------------------------------------------------------- diff

type DiffEnt struct {
	Ent
	T int64  `json:"t"` // variation of the times
	B int    `json:"b"` // change one byte of the content at this place (counted from 1)
	H string `json:"h"` // change something of the header
}

type DiffCase struct {
	A   []DiffEnt `json:"a"`
	B   []DiffEnt `json:"b"`
	Cut int       `json:"cut"`         // cut off b after this many bytes
	Bad int       `json:"bad"`         // damage b at this byte
	F   string    `json:"f,omitempty"` // reading b fails: open, read (after Cut bytes)
}

func genDiff(rng *rand.Rand, i int) interface{} {
	var c DiffCase
	types := []string{"reg", "reg", "reg", "dir", "sym", "lnk", "chr", "fifo"}
	n := rng.Intn(5)
	for k := 0; k < n; k++ {
		e := DiffEnt{Ent: Ent{Name: partNames[rng.Intn(len(partNames))] + fmt.Sprint(k), Type: types[rng.Intn(len(types))], Meta: rng.Int63n(1 << 30)}}
		if e.Type == "sym" || e.Type == "lnk" {
			e.Link = partNames[rng.Intn(len(partNames))]
		}
		c.A = append(c.A, e)
	}
	c.B = append([]DiffEnt{}, c.A...)
	if chance(rng, 2) { // times only
		for i := range c.B {
			if chance(rng, 2) {
				c.B[i].T = 1 + rng.Int63n(5)
			}
		}
	}
	hs := []string{"mode", "uid", "gid", "uname", "gname", "link", "xattr", "xattrval", "dev", "devmajor", "pax", "type", "name"}
	switch rng.Intn(10) {
	case 0, 1, 2:
	case 3:
		if n > 0 {
			c.B[rng.Intn(n)].H = hs[rng.Intn(len(hs))]
		}
	case 4, 5:
		if n > 0 {
			c.B[rng.Intn(n)].B = 1 + []int{0, 1, 1022, 1023, 1024, 1025, 2047, 2048, 4095}[rng.Intn(9)]
		}
	case 6:
		if n > 0 {
			c.B = c.B[:n-1]
			if chance(rng, 2) {
				c.A, c.B = c.B, c.A
			}
		}
	case 7:
		if n > 1 {
			k := rng.Intn(n - 1)
			c.B[k], c.B[k+1] = c.B[k+1], c.B[k]
		}
	case 8:
		c.Cut = 1 + rng.Intn(3000)
	case 9:
		c.Bad = 1 + rng.Intn(700)
	}
	if chance(rng, 12) {
		c.F = pick(rng, "open", "read")
		c.Cut = 1 + rng.Intn(3000)
	}
	return c
}

func (e DiffEnt) raw() (*tar.Header, []byte) {
	hdr, body := e.Ent.header()
	body = append([]byte{}, body...)
	switch e.T {
	case 1:
		hdr.ModTime = hdr.ModTime.Add(time.Hour)
	case 2:
		if !hdr.AccessTime.IsZero() {
			hdr.AccessTime = hdr.AccessTime.Add(time.Hour)
		} else {
			hdr.ModTime = hdr.ModTime.Add(time.Second)
		}
	case 3:
		if !hdr.ChangeTime.IsZero() {
			hdr.ChangeTime = hdr.ChangeTime.Add(time.Hour)
		} else {
			hdr.ModTime = hdr.ModTime.Add(2 * time.Second)
		}
	case 4: // more precise
		if hdr.Format != tar.FormatGNU {
			hdr.Format = tar.FormatPAX
			hdr.ModTime = hdr.ModTime.Add(time.Nanosecond)
		}
	case 5: // more of them
		if hdr.Format != tar.FormatGNU {
			hdr.Format = tar.FormatPAX
		}
		if hdr.Format != tar.FormatUnknown {
			hdr.AccessTime, hdr.ChangeTime = time.Unix(1234567, 0), time.Unix(7654321, 0)
		}
	}
	if e.B > 0 && e.B <= len(body) {
		body[e.B-1] ^= 0x20
	}
	switch e.H {
	case "mode":
		hdr.Mode ^= 0o100
	case "uid":
		hdr.Uid++
	case "gid":
		hdr.Gid++
	case "uname":
		hdr.Uname = "other"
	case "gname":
		hdr.Gname = "other"
	case "link":
		if e.Type == "sym" || e.Type == "lnk" {
			hdr.Linkname += "x"
		}
	case "xattr", "xattrval":
		if hdr.Format == tar.FormatPAX {
			if hdr.PAXRecords == nil {
				hdr.PAXRecords = map[string]string{}
			}
			if e.H == "xattr" {
				hdr.PAXRecords["SCHILY.xattr.user.more"] = "1"
			} else {
				hdr.PAXRecords["SCHILY.xattr.user.bar"] = "other"
			}
		}
	case "dev":
		if e.Type == "chr" {
			hdr.Devminor++
		}
	case "devmajor":
		if e.Type == "chr" {
			hdr.Devmajor++
		}
	case "pax":
		if hdr.Format == tar.FormatPAX {
			if hdr.PAXRecords == nil {
				hdr.PAXRecords = map[string]string{}
			}
			hdr.PAXRecords["VERIF.some.rather.long.record"] = "1"
		}
	case "type":
		if e.Type == "chr" {
			hdr.Typeflag = tar.TypeBlock
		} else if e.Type == "sym" {
			hdr.Typeflag = tar.TypeLink
		}
	case "name":
		hdr.Name += "x"
	}
	return hdr, body
}

func diffTar(es []DiffEnt) []byte {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, e := range es {
		hdr, body := e.raw()
		must(tw.WriteHeader(hdr))
		_, err := tw.Write(body)
		must(err)
	}
	must(tw.Close())
	return buf.Bytes()
}

// timeless stands for everything of an entry but its times.
func (r rawEnt) timeless() string {
	h := *r.Hdr
	h.ModTime, h.AccessTime, h.ChangeTime = time.Time{}, time.Time{}, time.Time{}
	return hash8([]byte(fmt.Sprintf("%q %s", h.Name, rawEnt{&h, r.Body}.describe())))
}

// deadLayer is a layer that cannot be read to its end.
type deadLayer struct {
	ociv1.Layer
	bs  []byte
	bad string
}

func (l deadLayer) Uncompressed() (io.ReadCloser, error) {
	if l.bad == "open" {
		return nil, errBad
	}
	return badReader{bytes.NewReader(l.bs), l.bad}, nil
}

func execDiff(raw json.RawMessage) interface{} {
	var c DiffCase
	decode(raw, &c)
	a, b := diffTar(c.A), diffTar(c.B)
	switch {
	case c.F == "read": // before what ends the archive
		b = b[:c.Cut%(len(b)-1023)]
	case c.F == "" && c.Cut > 0 && c.Cut < len(b):
		b = b[:c.Cut]
	}
	if c.Bad > 0 && c.Bad < len(b) {
		b[c.Bad-1] ^= 0x11
	}
	toks := func(bs []byte) ([]string, bool) {
		rs, err := readTar(bs)
		ret := []string{}
		for _, r := range rs {
			ret = append(ret, r.timeless())
		}
		return ret, err == nil
	}
	at, _ := toks(a)
	bt, valid := toks(b)
	la, lb := layerOf(a), layerOf(b)
	if c.F != "" {
		lb = deadLayer{lb, b, c.F}
		valid = false
	}
	eq, err := fsutil.LayersEqualExceptTimestamps(la, lb)
	eq2, err2 := fsutil.LayersEqualExceptTimestamps(lb, la)
	ev := J{"k": "diff", "a": at, "b": bt, "valid": valid, "eq": eq, "eq2": eq2, "err": "", "what": ""}
	for _, e := range c.B {
		ev["what"] = fmt.Sprintf("%v %d", ev["what"], e.T)
	}
	if err != nil {
		ev["err"] = ascii(err.Error())
		ev["eq"] = eq
	}
	if (err == nil) != (err2 == nil) {
		ev["eq2"] = !eq // an error in one direction only is reported when both should be readable
		if !valid {
			ev["eq2"] = eq
		}
	}
	return ev
}

// ---------------------------------------------------------------- gobuild

type GoStep struct {
	K    string `json:"k"`
	C    string `json:"c"`
	When int    `json:"when,omitempty"` // the how-many'th system call an injected fault hits
	Call string `json:"call,omitempty"`
}

type GoCase struct {
	Steps []GoStep `json:"steps"`
	Seed  int64    `json:"seed"`
}

func genGobuild(rng *rand.Rand, i int) interface{} {
	c := GoCase{Seed: rng.Int63n(1 << 30)}
	for k, n := 0, 1+rng.Intn(5); k < n; k++ {
		s := GoStep{K: []string{"build", "build", "build", "fail", "full", "junk", "delete", "inject", "kill", "lock"}[rng.Intn(10)], C: []string{"A", "B", "C", "D"}[rng.Intn(4)]}
		if s.K == "inject" || s.K == "kill" {
			s.When = 1 + rng.Intn(12)
			s.Call = []string{"write", "write", "renameat,rename", "openat", "close", "unlinkat,unlink"}[rng.Intn(6)]
			if s.K == "inject" && s.Call == "close" {
				s.Call = "write" // a close that neither closes nor succeeds does not happen
			}
			if s.Call != "write" && s.Call != "openat" && s.Call != "close" {
				s.When = 1
			}
			if s.K == "inject" && s.Call == "unlinkat,unlink" {
				s.Call = "write"
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

const fakeGo = `#!/bin/bash
# stands in for the Go compiler: "builds" what FAKEGO_SRC holds
out=
prev=
for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
cp -a "$FAKEGO_SRC"/. "$out"/ || exit 9
exit $FAKEGO_RC
`

func goContent(id string, seed int64) []Node {
	rng := rand.New(rand.NewSource(seed))
	base := []Node{{C: []string{"prog"}, T: "reg", Ino: 1, Mode: 0o755, S: 1900000000, Data: "base", Len: []int{5, 600, 1024, 1500}[rng.Intn(4)]}}
	switch id {
	case "B": // same length, other content
		base[0].Data = "esab"
	case "C":
		base = append(base, Node{C: []string{"another"}, T: "reg", Ino: 2, Mode: 0o755, S: 1900000000, Data: "z"})
	case "D": // only the mode
		base[0].Mode = 0o700
	}
	return base
}

func fileState(p string) J {
	bs, err := os.ReadFile(p)
	if err != nil {
		return J{"k": "none", "sum": "none", "ents": []J{}}
	}
	ents, err := outJ(bs)
	if err != nil || len(bs) == 0 {
		return J{"k": "junk", "sum": hash8(bs), "ents": []J{}}
	}
	// an interrupted write can end at a boundary: a whole archive ends in two blocks of zeros
	if len(bs) < 1024 || !bytes.Equal(bs[len(bs)-1024:], make([]byte, 1024)) {
		return J{"k": "junk", "sum": hash8(bs), "ents": []J{}}
	}
	return J{"k": "layer", "sum": hash8(bs), "ents": ents}
}

func listDir(d string) []string {
	es, err := os.ReadDir(d)
	must(err)
	ret := []string{}
	for _, e := range es {
		ret = append(ret, e.Name())
	}
	return ret
}

func execGobuild(raw json.RawMessage) interface{} {
	var c GoCase
	decode(raw, &c)
	d := scratchDir()
	defer dropDir(d)
	for _, s := range []string{"bin", "tmp", "out"} {
		must(os.Mkdir(filepath.Join(d, s), 0o755))
	}
	must(os.WriteFile(filepath.Join(d, "bin/go"), []byte(fakeGo), 0o755))
	out := filepath.Join(d, "out/layer.tar")
	steps := []J{}
	for i, s := range c.Steps {
		old := fileState(out)
		nodes := goContent(s.C, c.Seed)
		sde := int64(1000 * (i + 1))
		o := DirOpts{Prefix: "usr/local/bin", PUN: "root", PGN: "root", ChOwn: true, CUN: "root", CGN: "root", CS: sde}.j()
		o["pre"] = []string{"usr", "local", "bin"}
		st := J{"k": s.K, "rc": 0, "nodes": nodesJ(nodes), "o": o, "old": old, "temps": []string{}}
		switch s.K {
		case "junk":
			must(os.WriteFile(out, []byte(strings.Repeat("not a layer ", 100)), 0o644))
		case "delete":
			_ = os.Remove(out)
		case "lock": // nobody may write it, but it may be replaced
			_ = os.Chmod(out, 0o444)
		default:
			src := filepath.Join(d, fmt.Sprint("src", i))
			must(os.Mkdir(src, 0o755))
			makeTree(src, nodes)
			env := []string{"SOURCE_DATE_EPOCH=" + fmt.Sprint(sde), "TMPDIR=" + filepath.Join(d, "tmp"), "PATH=" + filepath.Join(d, "bin") + ":" + os.Getenv("PATH"), "FAKEGO_SRC=" + src, "FAKEGO_RC=0"}
			args := []string{os.Getenv("VERIF_OCIBUILD"), "layer", "gobuild", "-o", out, "./x"}
			if i%2 == 1 {
				args[4] = "layer.tar" // relative to the directory
			}
			switch s.K {
			case "fail":
				env[len(env)-1] = "FAKEGO_RC=1"
			case "full":
				args = append([]string{"bash", "-c", `ulimit -f 2; exec "$@"`, "-"}, args...)
			case "inject":
				args = append([]string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "inject=" + s.Call + ":error=ENOSPC:when=" + fmt.Sprint(s.When)}, args...)
			case "kill":
				args = append([]string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "inject=" + s.Call + ":signal=KILL:when=" + fmt.Sprint(s.When)}, args...)
			}
			rc, _, _ := runCmd(env, path.Dir(out), args...)
			if rc == timedOut && (s.K == "inject" || s.K == "kill") {
				return J{"k": "gobuild", "steps": steps} // the fault made the machinery hang; no verdict
			}
			st["rc"] = rc
			temps := listDir(filepath.Join(d, "tmp"))
			for _, n := range listDir(filepath.Join(d, "out")) {
				if n != "layer.tar" {
					temps = append(temps, n)
				}
			}
			st["temps"] = temps
			for _, n := range temps { // start the next step afresh
				must(os.RemoveAll(filepath.Join(d, "tmp", n)))
				must(os.RemoveAll(filepath.Join(d, "out", n)))
			}
			if s.K == "kill" {
				st["rc"] = 1
			}
		}
		st["new"] = fileState(out)
		steps = append(steps, st)
	}
	return J{"k": "gobuild", "steps": steps}
}
