package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"archive/tar"

	"sigs.k8s.io/yaml"
)

func init() {
	suites["cli"] = &Suite{Gen: genCli, Exec: execCli}
	suites["plat"] = &Suite{Gen: genPlat, Exec: execPlat}
}

// ---------------------------------------------------------------- descriptions of platforms

type PProg struct {
	N   string `json:"n"`
	K   string `json:"k"`
	Rep int    `json:"rep"`
}

type PRep struct {
	Magic  string   `json:"magic"` // hex
	Tags   []string `json:"tags"`
	Ver    []string `json:"ver"`
	Scheme []string `json:"scheme"` // below the root of the scheme
}

type PlatCase struct {
	Mode   string   `json:"mode"`
	Interp string   `json:"interp"`
	Host   []PProg  `json:"host"`
	Img    []PProg  `json:"img"`
	Dirs   []int    `json:"dirs"`
	Reps   []PRep   `json:"reps"`
	Owners []string `json:"owners"` // uid gid uname gname; used in images
	Dup    int      `json:"dup"`    // the directory that is a symbolic link, if it exists (counted from 1)
	Seed   int64    `json:"seed"`
}

var hostOwners = []string{"0 0", "1 1", "2 2", "65534 65534", "1 2", "0 1"}

// report is what the interpreter prints.
func (r PRep) report(root, k string) string {
	magic, err := hex.DecodeString(r.Magic)
	must(err)
	m64 := base64.StdEncoding.EncodeToString(magic)
	if k == "bad64" {
		m64 = "*" + m64
	}
	num := func(s string) int {
		n, err := strconv.Atoi(s)
		must(err)
		return n
	}
	scheme := J{}
	for i, key := range []string{"purelib", "platlib", "headers", "scripts", "data"} {
		scheme[key] = root + r.Scheme[i]
	}
	bs, err := json.Marshal(J{"MagicNumberB64": m64, "Tags": r.Tags, "Scheme": scheme,
		"VersionInfo": J{"major": num(r.Ver[0]), "minor": num(r.Ver[1]), "micro": num(r.Ver[2]), "releaselevel": r.Ver[3], "serial": num(r.Ver[4])}})
	must(err)
	if k == "junk" {
		bs = bs[:len(bs)-3]
	}
	return string(bs)
}

func fakePython(file string, k, report string) string {
	must(os.WriteFile(file+".json", []byte(report), 0o644))
	s := "#!/bin/sh\n# stands in for an interpreter\ncase \"$1\" in -m) exec /usr/bin/python3 \"$@\";; esac\n/bin/cat " + file + ".json\n"
	if k == "fail" {
		s += "echo failed >&2\nexit 1\n"
	}
	return s
}

const fakeDocker2 = `#!/bin/bash
# stands in for the container engine's client; what the programs of the image say is in $DK/say
args=() entry=
for a in "$@"; do case "$a" in --entrypoint=*) entry=${a#--entrypoint=};; -*) ;; *) args+=("$a");; esac; done
case "${args[0]} ${args[1]}" in
"image load"|"load ") /bin/cat >"$DK/img"; [ "$DK_LOAD" = ok ];;
"image rm"|"rmi "*) [ "$DK_RM" = ok ];;
"run "*)
  f="$DK/say/${entry##*/}"
  [ -e "$f" ] && [ "${entry%/*}" = /usr/bin ] || exit 127
  /bin/cat "$f"
  [ ! -e "$f.fail" ];;
*) exit 1;;
esac
`

func smallWheel(muts ...WMut) []byte {
	c := WheelCase{Muts: muts, Name: "foo-1.0", Wheel: "Wheel-Version: 1.0\nRoot-Is-Purelib: true\n", Algo: "sha256", M: []WMember{
		{N: "m.py", D: "x = 1\n", T: 1500000000, C: 3, U: 0o100644},
		{N: "foo-1.0.dist-info/entry_points.txt", D: "[console_scripts]\nrun = m:f\n[gui_scripts]\nrung = m:g\n", T: 1500000000, C: 3, U: 0o100644},
	}}
	return c.archive()
}

func execPlat(raw json.RawMessage) interface{} {
	var c PlatCase
	decode(raw, &c)
	d := scratchDir()
	defer dropDir(d)
	bin := filepath.Join(d, "bin")
	must(os.MkdirAll(filepath.Join(d, "say"), 0o755))
	must(os.Mkdir(bin, 0o755))
	must(os.Mkdir(filepath.Join(d, "root"), 0o755))
	root := filepath.Join(d, "root")
	if c.Mode == "image" {
		root = ""
	}
	for _, p := range c.Host {
		if p.K == "none" {
			continue
		}
		f := filepath.Join(bin, p.N)
		must(os.WriteFile(f, []byte(fakePython(f, p.K, c.Reps[p.Rep-1].report(root, p.K))), 0o755))
	}
	must(os.WriteFile(filepath.Join(bin, "docker"), []byte(fakeDocker2), 0o755))
	// the report of the interpreter that is described says where the directories are
	owners := [][4]string{}
	for i, o := range c.Owners {
		f := strings.Split(o, " ")
		if c.Mode == "host" {
			f = strings.Split(hostOwners[i%len(hostOwners)], " ")
			uid, _ := strconv.Atoi(f[0])
			gid, _ := strconv.Atoi(f[1])
			f = append(f, userName(uid), groupName(gid))
		}
		owners = append(owners, [4]string{f[0], f[1], f[2], f[3]})
	}
	args := []string{"python", "inspect", "--interpreter=" + c.Interp}
	if c.Mode == "host" {
		for i, o := range c.Dirs {
			if o == 0 {
				continue
			}
			// the same in every report
			p := root + c.Reps[0].Scheme[i]
			must(os.MkdirAll(p, 0o755))
			uid, _ := strconv.Atoi(owners[o-1][0])
			gid, _ := strconv.Atoi(owners[o-1][1])
			if c.Dup == i+1 {
				q := filepath.Join(d, "real")
				must(os.Mkdir(q, 0o755))
				must(os.Chown(q, uid, gid))
				must(os.Remove(p))
				must(os.Symlink(q, p))
			} else {
				must(os.Chown(p, uid, gid))
			}
		}
	} else {
		var buf bytes.Buffer
		tw := tar.NewWriter(&buf)
		for _, p := range c.Img {
			if p.K == "none" {
				continue
			}
			must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "usr/bin/" + p.N, Mode: 0o755, Size: 1}))
			_, err := tw.Write([]byte("x"))
			must(err)
			f := filepath.Join(d, "say", p.N)
			must(os.WriteFile(f, []byte(c.Reps[p.Rep-1].report("", p.K)), 0o644))
			if p.K == "fail" {
				must(os.WriteFile(f+".fail", nil, 0o644))
			}
		}
		for i, o := range c.Dirs {
			if o == 0 {
				continue
			}
			uid, _ := strconv.Atoi(owners[o-1][0])
			gid, _ := strconv.Atoi(owners[o-1][1])
			h := tar.Header{Typeflag: tar.TypeDir, Name: strings.TrimPrefix(c.Reps[0].Scheme[i], "/"), Mode: 0o755, Uid: uid, Gid: gid, Uname: owners[o-1][2], Gname: owners[o-1][3]}
			if c.Dup == i+1 {
				must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: h.Name, Linkname: "/real", Mode: 0o777, Uid: 77}))
				h.Name = "real"
			}
			must(tw.WriteHeader(&h))
		}
		must(tw.Close())
		img := filepath.Join(d, "image.tar")
		must(os.WriteFile(img, simpleImage(buf.Bytes(), []string{"PATH=/bin:/usr/bin"}), 0o644))
		args = append(args, "--imagefile="+img)
	}
	env := []string{"PATH=" + bin, "DK=" + d, "DK_LOAD=ok", "DK_RM=ok"}
	rc, stdout, stderr := runCLI(env, d, args...)
	if bytes.Contains(stderr, []byte("goroutine ")) {
		rc = -2
	}
	cut := func(s string) string { return ascii(strings.ReplaceAll(strings.ReplaceAll(s, bin, "/H"), root, "")) }
	if root == "" {
		cut = func(s string) string { return ascii(strings.ReplaceAll(s, bin, "/H")) }
	}
	out := J{"ok": false, "con": "", "gui": "", "scheme": []string{}, "uid": "", "gid": "", "un": "", "gn": "", "ver": []string{}, "magic": "", "tags": []string{}, "pyc": []string{}}
	text := cut(string(stderr))
	var doc map[string]interface{}
	if rc == 0 {
		if err := yaml.Unmarshal(stdout, &doc); err != nil {
			text = ascii(err.Error())
		} else {
			out = platDoc(doc, cut)
		}
	}
	used := J{"rc": -1, "text": "", "at": "", "bin": "", "owner": []string{}, "con": "", "gui": ""}
	if rc == 0 {
		yml, whl := filepath.Join(d, "out.yml"), filepath.Join(d, "foo-1.0-py3-none-any.whl")
		must(os.WriteFile(yml, stdout, 0o644))
		must(os.WriteFile(whl, smallWheel(), 0o644))
		urc, lay, uerr := runCLI([]string{"PATH=" + bin, "TMPDIR=" + d}, d, "layer", "wheel", "--platform-file="+yml, whl)
		used["rc"], used["text"] = urc, cut(string(uerr))
		if ents, err := readTar(lay); urc == 0 && err == nil {
			for _, e := range ents {
				dir, base := filepath.Split("/" + e.Hdr.Name)
				dir = strings.TrimSuffix(dir, "/")
				first := strings.TrimPrefix(strings.SplitN(string(e.Body), "\n", 2)[0], "#!")
				switch base {
				case "m.py":
					used["at"] = cut(dir)
					used["owner"] = []string{strconv.Itoa(e.Hdr.Uid), strconv.Itoa(e.Hdr.Gid), ascii(e.Hdr.Uname), ascii(e.Hdr.Gname)}
				case "run":
					used["bin"], used["con"] = cut(dir), cut(first)
				case "rung":
					used["gui"] = cut(first)
				}
			}
		} else if err != nil {
			used["rc"] = -3
		}
	}
	reps := []J{}
	for _, r := range c.Reps {
		reps = append(reps, J{"magic": r.Magic, "tags": append([]string{}, r.Tags...), "ver": r.Ver, "scheme": r.Scheme})
	}
	return J{"k": "plat", "mode": c.Mode, "interp": c.Interp, "host": append([]PProg{}, c.Host...), "img": append([]PProg{}, c.Img...), "hdir": "/H", "idir": "/usr/bin", "dirs": c.Dirs, "reps": reps,
		"owners": owners, "rc": rc, "any": len(stdout) > 0, "msg": len(stderr) > 0, "text": text, "out": out, "used": used}
}

// platDoc reads a description; the names of the fields are matched as 'layer wheel' does, without regard to case.
func platDoc(doc map[string]interface{}, cut func(string) string) J {
	low := map[string]interface{}{}
	for k, v := range doc {
		low[strings.ToLower(k)] = v
	}
	str := func(v interface{}) string {
		switch v := v.(type) {
		case string:
			return cut(v)
		case float64:
			return strconv.FormatInt(int64(v), 10)
		}
		return ascii(fmt.Sprintf("%T", v))
	}
	list := func(v interface{}) []string {
		ret := []string{}
		l, _ := v.([]interface{})
		for _, x := range l {
			ret = append(ret, str(x))
		}
		return ret
	}
	sub := func(v interface{}, keys ...string) []string {
		m := map[string]interface{}{}
		mm, _ := v.(map[string]interface{})
		for k, x := range mm {
			m[strings.ToLower(k)] = x
		}
		ret := []string{}
		for _, k := range keys {
			ret = append(ret, str(m[k]))
		}
		return ret
	}
	magic := ""
	switch v := low["magicnumber"].(type) {
	case string:
		bs, err := base64.StdEncoding.DecodeString(v)
		if err == nil {
			magic = hex.EncodeToString(bs)
		}
	case []interface{}:
		for _, x := range v {
			f, _ := x.(float64)
			magic += fmt.Sprintf("%02x", int(f)&255)
		}
	}
	return J{"ok": true, "con": str(low["consoleshebang"]), "gui": str(low["graphicalshebang"]), "scheme": sub(low["scheme"], "purelib", "platlib", "headers", "scripts", "data"),
		"uid": str(low["uid"]), "gid": str(low["gid"]), "un": str(low["uname"]), "gn": str(low["gname"]),
		"ver": sub(low["versioninfo"], "major", "minor", "micro", "releaselevel", "serial"), "magic": magic, "tags": list(low["tags"]), "pyc": list(low["pycompile"])}
}

var oddNames = []string{"lib", "s p", "x: y", "#c", "'q'", "- d", "yes", "0x1f", "~", "\"dq\"", "back\\slash", "a:b", "{x}", "[y]", "&z", "*w", "!t", "%p", "@v", "`b", "null", "1.0", "a #b", "?", "|", ">", "012", "1e3"}

func genPlat(rng *rand.Rand, i int) interface{} {
	c := PlatCase{Mode: pick(rng, "host", "image"), Interp: pick(rng, "python3", "python3", "pythonw3", "python", "python3.9", "sh"), Host: []PProg{}, Img: []PProg{}, Seed: rng.Int63n(1 << 30)}
	prog := func(n string) PProg {
		return PProg{N: n, K: pick(rng, "none", "says", "says", "says", "fail", "junk", "bad64"), Rep: 1 + rng.Intn(3)}
	}
	for _, n := range []string{"python3.9", "python3.10", "python3", "python", "pythonw3", "pythonw"} {
		if chance(rng, 2) {
			c.Host = append(c.Host, prog(n))
		}
	}
	if c.Mode == "image" {
		for _, n := range []string{"python3", "pythonw3", "python", "python3.9"} {
			if !chance(rng, 3) {
				c.Img = append(c.Img, prog(n))
			}
		}
	}
	scheme := []string{}
	dir := ""
	for _, n := range []string{"purelib", "platlib", "headers", "scripts", "data"} {
		dir = "/s/" + n
		if chance(rng, 2) {
			dir = "/" + oddNames[rng.Intn(len(oddNames))] + "/" + n
		}
		scheme = append(scheme, dir)
	}
	for k := 0; k < 3; k++ {
		r := PRep{Magic: pick(rng, "610d0d0a", "610d0d0a", "a70d0d0a", "00ff80", ""), Ver: []string{"3", pick(rng, "9", "9", "10"), "1", pick(rng, "final", "final", "alpha", "candidate"), pick(rng, "0", "2")}, Scheme: scheme, Tags: []string{}}
		for n := rng.Intn(4); n > 0; n-- {
			r.Tags = append(r.Tags, pick(rng, "cp39-cp39-manylinux_2_31_x86_64", "py3-none-any", "cp39-abi3-linux_x86_64", "py39-none-any", "cp310-none-any"))
		}
		c.Reps = append(c.Reps, r)
	}
	for k := 0; k < 5; k++ {
		o := rng.Intn(4)
		if chance(rng, 3) {
			o = 0
		}
		c.Dirs = append(c.Dirs, o)
	}
	c.Dup = rng.Intn(8)
	for k := 0; k < 3; k++ {
		c.Owners = append(c.Owners, pick(rng, "0 0 root root", "1000 1001 me us", "7 8 yes no", "12 13 012 0x1", "5 5  ", "3000000 3000001 big~ null", "1 2 a:b #c"))
	}
	return c
}

// ---------------------------------------------------------------- invocations

type CliCase struct {
	Cmd  string   `json:"cmd"`
	Flag string   `json:"flag"`
	Help string   `json:"help"`
	Args string   `json:"args"`
	Req  bool     `json:"req"`
	Ins  []string `json:"ins"`
	Out  string   `json:"out"`
	Seed int64    `json:"seed"`
}

func genCli(rng *rand.Rand, i int) interface{} { panic("cases come from the model") }

// TFile is a file, or a directory if it has no mode.
type TFile struct {
	n string
	m int64
	d string
}

func tarOf(fs []TFile) []byte {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, f := range fs {
		h := tar.Header{Typeflag: tar.TypeReg, Name: f.n, Mode: f.m, Size: int64(len(f.d))}
		if f.m == 0 {
			h.Typeflag, h.Mode = tar.TypeDir, 0o755
		}
		must(tw.WriteHeader(&h))
		_, err := tw.Write([]byte(f.d))
		must(err)
	}
	must(tw.Close())
	return buf.Bytes()
}

// simpleImage is an image of one layer.
func simpleImage(layer []byte, env []string) []byte {
	cfg, err := json.Marshal(J{"architecture": "amd64", "os": "linux", "config": J{"Env": env}, "rootfs": J{"type": "layers", "diff_ids": []string{"sha256:" + sha(layer)}}, "history": []J{{"created_by": "x"}}})
	must(err)
	man, err := json.Marshal([]J{{"Config": "config.json", "RepoTags": []string{}, "Layers": []string{"l.tar"}}})
	must(err)
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, f := range []struct {
		n string
		d []byte
	}{{"config.json", cfg}, {"l.tar", layer}, {"manifest.json", man}} {
		must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: f.n, Mode: 0o644, Size: int64(len(f.d))}))
		_, err := tw.Write(f.d)
		must(err)
	}
	must(tw.Close())
	return buf.Bytes()
}

func execCli(raw json.RawMessage) interface{} {
	var c CliCase
	decode(raw, &c)
	rng := rand.New(rand.NewSource(c.Seed))
	d := scratchDir()
	defer dropDir(d)
	must(os.Chmod(d, 0o755))
	for _, s := range []string{"bin", "tmp", "say", "cwd"} {
		must(os.Mkdir(filepath.Join(d, s), 0o777))
		must(os.Chmod(filepath.Join(d, s), 0o777))
	}
	p := func(s ...string) string { return filepath.Join(append([]string{d}, s...)...) }
	bin := p("bin")
	write := func(f string, bs []byte, mode os.FileMode) string {
		must(os.WriteFile(f, bs, mode))
		return f
	}
	var faulty string // the file whose system calls fail
	nobody := false
	body := func(n int) string {
		bs := make([]byte, n)
		for i := range bs {
			bs[i] = "abcdefgh\n"[rng.Intn(9)]
		}
		return string(bs)
	}
	big := func() int { return []int{10, 700, 40000, 300000}[rng.Intn(4)] }
	layerFile := func(n int, st string) string {
		f := p(fmt.Sprintf("layer%d.tar", n))
		data := body(big())
		bs := tarOf([]TFile{{n: fmt.Sprintf("d%d", n)}, {n: fmt.Sprintf("d%d/f", n), m: 0o644, d: data}})
		switch st {
		case "missing":
			return f
		case "dir":
			must(os.Mkdir(f, 0o755))
			return f
		case "gz":
			bs = gz(bs)
		case "cutgz":
			bs = gz(bs)
			bs = bs[:len(bs)-1-rng.Intn(len(bs)/2)]
		case "garbage":
			bs = []byte(strings.Repeat("garbage ", 200+rng.Intn(200)))
		case "cut":
			bs = bs[:513+rng.Intn(511+len(data))]
		case "eio":
			faulty = f
			if chance(rng, 2) {
				bs = gz(bs)
			}
		}
		return write(f, bs, 0o644)
	}
	goodReport := func(k string) string {
		r := PRep{Magic: "610d0d0a", Ver: []string{"3", "9", "1", "final", "0"}, Tags: []string{"py3-none-any"}, Scheme: []string{"/a", "/b", "/c", "/d", "/e"}}
		root := p("root")
		if k != "nodirs" {
			must(os.MkdirAll(p("root", "c"), 0o755))
		}
		return r.report(root, k)
	}
	env := append(envWithout("PATH", "TMPDIR", "HTTP_PROXY", "http_proxy", "ALL_PROXY"), "TMPDIR="+p("tmp"), "DK="+d, "DK_LOAD=ok", "DK_RM=ok")
	path := bin + ":/usr/bin:/bin"
	argv := strings.Fields(c.Cmd)
	var flags, args, missingFlag []string
	badFlag, reqFlag := "", ""
	wantNames := []string{} // of the layer
	resultFile := ""
	var exact []byte
	in := func(n int) string { return c.Ins[n] }
	switch c.Cmd {
	case "image build":
		badFlag = "--base"
		switch in(0) {
		case "none":
		default:
			f := p("base.tar")
			bs := simpleImage(tarOf([]TFile{{n: "x", m: 0o644, d: body(big())}}), nil)
			switch in(0) {
			case "missing":
				bs = nil
			case "garbage":
				bs = []byte(strings.Repeat("garbage ", 300))
			case "cut":
				bs = bs[:rng.Intn(len(bs)-2000)]
			case "dir":
				must(os.Mkdir(f, 0o755))
				bs = nil
			case "eio":
				faulty = f
			}
			if bs != nil {
				write(f, bs, 0o644)
			}
			flags = append(flags, "--base="+f)
		}
		args = []string{layerFile(1, in(1)), layerFile(2, in(2))}
		switch in(3) {
		case "good":
			flags = append(flags, "--tag="+pick(rng, "a/b:c", "localhost:5000/xx:y"))
		case "bad":
			flags = append(flags, "--tag="+pick(rng, "A B", ":", "x:y:z!"))
		}
	case "layer dir":
		badFlag, missingFlag = "--prefix", []string{"--prefix-uid=x", "--chown-gid=1.5"}
		t := p("tree")
		wantNames = []string{"f", "s", "s/g"}
		if in(0) != "missing" {
			must(os.MkdirAll(filepath.Join(t, "s"), 0o755))
			write(filepath.Join(t, "f"), []byte(body(big())), 0o644)
			g := write(filepath.Join(t, "s", "g"), []byte(body(big())), 0o644)
			switch in(0) {
			case "noread":
				must(os.Chmod(g, 0))
				nobody = true
			case "nolist":
				must(os.Chmod(filepath.Join(t, "s"), 0))
				nobody = true
			case "eio":
				faulty = g
				if chance(rng, 3) {
					faulty = filepath.Join(t, "s")
				}
			}
		}
		args = []string{t}
	case "layer gobuild":
		badFlag = "--output"
		src := p("src")
		must(os.Mkdir(src, 0o755))
		write(filepath.Join(src, "prog"), []byte(body(big())), 0o755)
		if in(0) != "missing" {
			write(filepath.Join(bin, "go"), []byte(fakeGo), 0o755)
		} else {
			path = bin
		}
		env = append(env, "FAKEGO_SRC="+src)
		if in(0) == "fails" {
			env = append(env, "FAKEGO_RC=1")
		} else {
			env = append(env, "FAKEGO_RC=0")
		}
		wantNames = []string{"usr", "usr/local", "usr/local/bin", "usr/local/bin/prog"}
		switch in(1) {
		case "file":
			resultFile = p("out.tar")
		case "nodir":
			resultFile = p("nodir", "out.tar")
		case "baddir":
			resultFile = p("outdir")
			must(os.Mkdir(resultFile, 0o755))
		}
		if resultFile != "" {
			flags = append(flags, pick(rng, "-o", "--output"), resultFile)
		}
		args = []string{"./x"}
	case "layer squash":
		args = []string{layerFile(1, in(0)), layerFile(2, in(1))}
		wantNames = []string{"d1", "d1/f", "d2", "d2/f"}
	case "layer wheel":
		badFlag = "--platform-file"
		yf, wf := p("plat.yml"), p("foo-1.0-py3-none-any.whl")
		py := J{"ConsoleShebang": "/usr/bin/python3", "Scheme": J{"purelib": "/l", "platlib": "/l", "headers": "/h", "scripts": "/b", "data": "/d"}, "UID": 0, "GID": 0, "UName": "root", "GName": "root",
			"PyCompile": []string{"python3", "-m", "compileall", "-q"}}
		switch in(0) {
		case "unknown":
			py["Whatever"] = 1
		case "noshebang":
			py["ConsoleShebang"] = ""
		case "relative":
			py["Scheme"].(J)["headers"] = "h"
		case "nocompile":
			delete(py, "PyCompile")
		case "nocompiler":
			py["PyCompile"] = []string{p("no/such/compiler")}
		case "compilefails":
			py["PyCompile"] = []string{"/bin/false"}
		case "eio":
			faulty = yf
		}
		yb, err := json.Marshal(py)
		must(err)
		if in(0) == "garbage" {
			yb = []byte(pick(rng, "a: [", "\x00\x01", "- x\n- y\n", "}{", "\tx: y"))
		}
		switch in(0) {
		case "missing":
		case "dir":
			must(os.Mkdir(yf, 0o755))
		default:
			write(yf, yb, 0o644)
		}
		wb := smallWheel()
		switch in(1) {
		case "missing":
			wb = nil
		case "dir":
			must(os.Mkdir(wf, 0o755))
			wb = nil
		case "garbage":
			wb = []byte(strings.Repeat("garbage ", 100))
		case "cut":
			wb = wb[:rng.Intn(len(wb)-30)]
		case "tampered":
			wb = smallWheel(WMut{K: "alter", I: 0})
		case "eio":
			faulty = wf
		}
		if wb != nil {
			write(wf, wb, 0o644)
		}
		reqFlag = "--platform-file=" + yf
		if c.Req {
			flags = append(flags, reqFlag)
		}
		args = []string{wf}
		wantNames = []string{"l/m.py", "b/run", "l/foo-1.0.dist-info/RECORD"}
	case "python getwheel":
		badFlag = "--index-server"
		file := "proj-1.0-py3-none-any.whl"
		exact = []byte(body(big()))
		host := ""
		if in(1) == "down" {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			host = l.Addr().String()
			must(l.Close())
			flags = append(flags, "--index-server=http://"+host+"/simple/")
		} else {
			srv := startServers()
			page := NRoute{U: "http://h0/simple/proj/", St: 200, Page: true, Style: c.Seed}
			fr := NRoute{U: "http://h0/f.whl", St: 200, Body: string(exact), Style: 5}
			href := "/f.whl#sha256=" + hexDigest("sha256", exact)
			text := file
			switch in(1) {
			case "nopage":
				page.St = []int{404, 500, 403}[rng.Intn(3)]
			case "nolink":
				text = "proj-1.1-py3-none-any.whl"
			case "nofile":
				fr.St = []int{404, 500, 403, 410}[rng.Intn(4)]
			case "cut":
				fr.Fault = pick(rng, "cut", "chunkcut", "close", "gzipcut", "late")
			case "wrong":
				fr.Body += "x"
			}
			page.As = []NAnchor{{Href: []string{href}, Text: text}}
			srv.set([]NRoute{page, fr})
			flags = append(flags, "--index-server="+realURL("http://h0/simple/"))
		}
		args = []string{file}
		if in(0) == "bad" {
			args = []string{pick(rng, "proj.whl", "proj-1.0.tar.gz", "", "x", "proj-1.0-py3.whl", "a/../proj-1.0-py3-none-any.zip")}
		}
	case "python inspect":
		badFlag = "--interpreter"
		path = bin
		img := in(1) != "none"
		k := map[string]string{"good": "says", "missing": "none", "fails": "fail", "junk": "junk", "bad64": "bad64", "nodirs": "nodirs"}[in(0)]
		if !img {
			if k != "none" {
				f := filepath.Join(bin, "python3")
				write(f, []byte(fakePython(f, k, goodReport(k))), 0o755)
			}
		} else {
			f := filepath.Join(bin, "python3")
			write(f, []byte(fakePython(f, "says", goodReport("nodirs"))), 0o755)
			ents := []TFile{{n: "usr"}}
			if k != "none" {
				ents = append(ents, TFile{n: "usr/bin/python3", m: 0o755, d: "x"})
			}
			if k != "nodirs" {
				ents = append(ents, TFile{n: strings.TrimPrefix(p("root", "d"), "/")})
			}
			f = p("image.tar")
			ib := simpleImage(tarOf(ents), []string{"PATH=/usr/bin"})
			switch in(1) {
			case "missing":
				ib = nil
			case "garbage":
				ib = []byte(strings.Repeat("garbage ", 400))
			case "eio":
				faulty = f
			}
			if ib != nil {
				write(f, ib, 0o644)
			}
			flags = append(flags, "--imagefile="+f)
			if in(2) != "missing" {
				write(filepath.Join(bin, "docker"), []byte(fakeDocker2), 0o755)
			}
			say := goodReport(k)
			if in(2) == "runjunk" {
				say = pick(rng, "", "{", "[]x", "null}", "\"x\"")
			}
			write(p("say", "python3"), []byte(say), 0o644)
			if in(2) == "norun" || k == "fail" {
				write(p("say", "python3.fail"), nil, 0o644)
			}
			if in(2) == "noload" {
				env = append(env, "DK_LOAD=no")
			}
			if in(2) == "norm" {
				env = append(env, "DK_RM=no")
			}
		}
	default: // a group
		if c.Args == "many" {
			args = []string{pick(rng, "bogus", "imag", "Layer", "buildx", "-", "lyer", "whel", "squas", "buld", "inspec")}
		}
	}
	switch c.Args {
	case "few":
		if c.Cmd == "layer squash" {
			args = args[:rng.Intn(2)]
		} else {
			args = nil
		}
	case "many":
		if len(args) == 0 || len(argv) == 2 {
			args = append(args, pick(rng, "extra", "x", "/dev/null"))
		}
	}
	switch c.Flag {
	case "unknown":
		flags = append(flags, pick(rng, "--bogus", "--bogus=1", "-Z", "--hel"))
	case "badvalue":
		flags = append(flags, missingFlag[rng.Intn(len(missingFlag))])
	}
	switch c.Help {
	case "flag":
		flags = append(flags, pick(rng, "--help", "-h"))
	}
	argv0 := argv
	argv = append([]string{}, argv...)
	switch {
	case c.Help == "word":
		argv = append([]string{"help"}, argv0...)
	case c.Flag == "novalue": // at the end
		argv = append(append(append(argv, flags...), args...), badFlag)
	case chance(rng, 3) && len(argv0) == 2:
		argv = append(append(argv, args...), flags...)
	default:
		argv = append(append(argv, flags...), args...)
	}
	argv = append([]string{os.Getenv("VERIF_OCIBUILD")}, argv...)
	outFile, logFile := p("stdout"), p("strace.log")
	if c.Out == "faulty" {
		faulty = outFile
		if resultFile != "" && in(1) != "file" {
			faulty = p("unused")
		}
	}
	// a disk that gets full in the middle of a write: every archive is longer than this
	limited := c.Out == "faulty" && faulty == outFile && (c.Cmd == "layer squash" || c.Cmd == "layer dir" || c.Cmd == "image build") && chance(rng, 2)
	if limited {
		argv = append([]string{"/bin/bash", "-c", `ulimit -f 1; exec "$@"`, "-"}, argv...)
	} else if faulty != "" {
		calls, when := "read,pread64,readv,preadv,copy_file_range,sendfile,getdents64", 1+rng.Intn(4)
		e := "EIO"
		if c.Out == "faulty" {
			calls, e = "write,writev,pwrite64,copy_file_range,sendfile,splice", "ENOSPC"
			if chance(rng, 2) {
				when = 1
			}
		}
		if chance(rng, 4) {
			when = 1 + rng.Intn(20)
		}
		argv = append([]string{"strace", "-f", "-qq", "-o", logFile, "-P", faulty, "-e", "trace=" + calls, "-e", "inject=" + calls + ":error=" + e + ":when=" + strconv.Itoa(when)}, argv...)
		path += ":/usr/bin:/bin"
		if c.Cmd == "layer gobuild" && in(0) == "missing" {
			argv[0], path = "/usr/bin/strace", bin
		}
		if c.Cmd == "python inspect" {
			argv[0], path = "/usr/bin/strace", bin
		}
	}
	env = append(env, "PATH="+path)
	var so, se bytes.Buffer
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env, cmd.Dir = env, p("cwd")
	cmd.Stdout, cmd.Stderr = &so, &se
	var of *os.File
	var err error
	switch c.Out {
	case "full":
		of, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		cmd.Stdout = of
	case "faulty":
		of, err = os.Create(outFile)
		must(err)
		cmd.Stdout = of
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if nobody && os.Geteuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	must(cmd.Start())
	late := time.AfterFunc(cmdLimit, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	hung := !late.Stop()
	rc := 0
	if werr != nil {
		ee, ok := werr.(*exec.ExitError)
		if !ok {
			must(werr)
		}
		rc = ee.ExitCode()
	}
	stdout := so.Bytes()
	if of != nil {
		must(of.Close())
	}
	if c.Out == "faulty" {
		stdout, err = os.ReadFile(outFile)
		must(err)
	}
	any := len(stdout) > 0
	if resultFile != "" {
		bs, err := os.ReadFile(resultFile)
		if err == nil {
			stdout = bs
		}
	}
	log, _ := os.ReadFile(logFile)
	inj := bytes.Contains(log, []byte("(INJECTED)")) || limited && len(stdout) == 1024
	whole := false
	switch {
	case len(stdout) == 0:
	case c.Cmd == "image build":
		ij := imageJ(stdout)
		whole = ij["ok"] == true
	case c.Cmd == "python getwheel":
		whole = bytes.Equal(stdout, exact)
	case c.Cmd == "python inspect":
		var doc map[string]interface{}
		if yaml.Unmarshal(stdout, &doc) == nil {
			o := platDoc(doc, func(s string) string { return s })
			whole = len(o["pyc"].([]string)) == 3 && o["magic"] == "610d0d0a" && len(o["tags"].([]string)) == 1
		}
	case len(wantNames) > 0:
		bs := stdout
		if bs[0] == 0x1f {
			if x, err := gunzip(bs); err == nil {
				bs = x
			}
		}
		if ents, err := readTar(bs); err == nil && len(bs) >= 1024 && len(bytes.Trim(bs[len(bs)-1024:], "\x00")) == 0 {
			names := []string{}
			for _, e := range ents {
				names = append(names, strings.TrimSuffix(e.Hdr.Name, "/"))
			}
			sort.Strings(names)
			whole = true
			for _, w := range wantNames {
				k := sort.SearchStrings(names, w)
				whole = whole && k < len(names) && names[k] == w
			}
		}
	}
	return J{"k": "cli", "cmd": c.Cmd, "flag": c.Flag, "help": c.Help, "args": c.Args, "req": c.Req, "ins": append([]string{}, c.Ins...), "out": c.Out, "inj": inj, "hung": hung, "crash": bytes.Contains(se.Bytes(), []byte("goroutine ")),
		"rc": rc, "whole": whole, "any": any, "msg": se.Len() > 0, "ptr": bytes.Contains(se.Bytes(), []byte("--help")), "text": ascii(se.String()), "argv": ascii(strings.Join(argv, " "))}
}
