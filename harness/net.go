package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/md5"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
)

func init() {
	suites["select"] = &Suite{Gen: genSelect, Exec: execSelect}
	suites["pick"] = &Suite{Gen: genPick, Exec: execPick}
	suites["net"] = &Suite{Gen: genNet, Exec: execNet}
	suites["getwheel"] = &Suite{Gen: genGetWheel, Exec: execGetWheel}
}

// ---------------------------------------------------------------- servers

// NAnchor is an anchor of a page.
type NAnchor struct {
	Href []string    `json:"href"` // none or one
	Text string      `json:"text"`
	At   [][2]string `json:"at"` // data- attributes
}

// NRoute is what the server answers at a URL.
type NRoute struct {
	U     string    `json:"u"` // http://h0/path
	St    int       `json:"st"`
	Loc   string    `json:"loc"`
	Fault string    `json:"fault"` // cut, chunkcut, close, gzip, gzipcut, badgzip, empty
	Body  string    `json:"body"`
	Big   int       `json:"big,omitempty"` // more content
	Meta  []string  `json:"meta"`
	As    []NAnchor `json:"as"`
	Page  bool      `json:"page"`
	Style int64     `json:"style"`
}

func (r NRoute) whole() bool {
	switch r.Fault {
	case "cut", "chunkcut", "close", "gzipcut", "badgzip", "late":
		return false
	}
	return true
}

func (r NRoute) content() []byte {
	if r.Page {
		return []byte(r.render())
	}
	bs := []byte(r.Body)
	if r.Big > 0 {
		big := make([]byte, r.Big)
		rand.New(rand.NewSource(int64(r.Big))).Read(big)
		bs = append(bs, big...)
	}
	return bs
}

// render writes the page in one of many ways.
func (r NRoute) render() string {
	rng := rand.New(rand.NewSource(r.Style))
	up := func(s string) string {
		if chance(rng, 4) {
			return strings.ToUpper(s)
		}
		return s
	}
	esc := func(s string) string {
		s = html.EscapeString(s)
		if chance(rng, 3) {
			s = strings.ReplaceAll(s, "&gt;", "&#62;")
		}
		if chance(rng, 4) {
			s = strings.ReplaceAll(s, ".", "&period;")
		}
		if chance(rng, 6) {
			s = strings.ReplaceAll(s, "-", "&#x2d;")
		}
		return s
	}
	decoy := `<a href="/decoy/evil-9.0-py3-none-any.whl" data-decoy="1">evil-9.0-py3-none-any.whl</a>`
	var sb strings.Builder
	if !chance(rng, 3) {
		sb.WriteString("<!DOCTYPE html>\n")
	}
	if chance(rng, 4) {
		sb.WriteString("<!-- " + decoy + " -->")
	}
	bare := chance(rng, 6)
	if !bare {
		sb.WriteString("<" + up("html") + "><" + up("head") + ">")
		if chance(rng, 5) {
			sb.WriteString("<!-- <meta name=\"pypi:repository-version\" content=\"7.0\"> -->")
		}
		if chance(rng, 5) {
			sb.WriteString("<meta name=\"repository-version\" content=\"9.0\"><meta name=\"description\" content=\"9\">")
		}
		if chance(rng, 4) {
			sb.WriteString("<title>Links " + decoy + "</title>")
		}
	}
	for _, m := range r.Meta {
		if chance(rng, 2) {
			sb.WriteString("<" + up("meta") + " " + up("name") + "=\"pypi:repository-version\" " + up("content") + "=\"" + esc(m) + "\">")
		} else {
			sb.WriteString("<meta content='" + esc(m) + "' name='pypi:repository-version' />")
		}
	}
	if !bare {
		sb.WriteString("</head><body>\n")
	}
	if chance(rng, 4) {
		sb.WriteString("<script>var x = '" + decoy + "';</script>")
	}
	for _, a := range r.As {
		if chance(rng, 5) {
			sb.WriteString("<!-- " + decoy + " -->")
		}
		if chance(rng, 8) {
			sb.WriteString("<textarea>" + decoy + "</textarea>")
		}
		if chance(rng, 8) {
			sb.WriteString("<link href=\"/decoy/x.whl\"><abbr href=\"/decoy/y.whl\">foo-1.0-py3-none-any.whl</abbr>")
		}
		var attrs []string
		if len(a.Href) > 0 {
			h := realURL(a.Href[0])
			if chance(rng, 2) {
				attrs = append(attrs, up("href")+"=\""+esc(h)+"\"")
			} else {
				attrs = append(attrs, up("href")+" = '"+esc(h)+"'")
			}
		}
		for _, kv := range a.At {
			switch {
			case kv[1] == "" && chance(rng, 2):
				attrs = append(attrs, up(kv[0]))
			case chance(rng, 2):
				attrs = append(attrs, up(kv[0])+"=\""+esc(kv[1])+"\"")
			default:
				attrs = append(attrs, kv[0]+"='"+esc(kv[1])+"'")
			}
		}
		if chance(rng, 3) {
			attrs = append(attrs, "rel=\"internal\" class=x title='data-yanked'")
		}
		rng.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
		tag := up("a")
		sb.WriteString("<" + tag)
		for _, at := range attrs {
			sb.WriteString(pick(rng, " ", "\n  ", "\t") + at)
		}
		sb.WriteString(">")
		switch {
		case len(a.Text) > 3 && chance(rng, 4):
			sb.WriteString("<b>" + esc(a.Text[:2]) + "</b>" + esc(a.Text[2:3]) + "<i><u></u>" + esc(a.Text[3:]) + "</i>")
		case len(a.Text) > 3 && chance(rng, 6):
			sb.WriteString(esc(a.Text[:3]) + "<!-- x -->" + esc(a.Text[3:]))
		default:
			sb.WriteString(esc(a.Text))
		}
		if !chance(rng, 8) {
			sb.WriteString("</" + tag + ">")
		} else {
			sb.WriteString("</a>")
		}
		sb.WriteString(pick(rng, "<br/>\n", "\n", "", "<br>", "<p>"))
	}
	if !bare {
		sb.WriteString("</body></html>\n")
	}
	return sb.String()
}

type servers struct {
	mu     sync.Mutex
	routes []NRoute
	hosts  []string
	log    []string
}

var theServers *servers

var serversOnce sync.Once

func startServers() *servers {
	serversOnce.Do(func() {
		s := &servers{}
		for i := 0; i < 2; i++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			s.hosts = append(s.hosts, l.Addr().String())
			n := i
			srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.serve(n, w, r) })}
			go func() { _ = srv.Serve(l) }()
		}
		theServers = s
	})
	return theServers
}

func realURL(s string) string {
	for i, h := range theServers.hosts {
		s = strings.ReplaceAll(s, "//h"+strconv.Itoa(i)+"/", "//"+h+"/")
	}
	return s
}

func modelURL(s string) string {
	for i, h := range theServers.hosts {
		s = strings.ReplaceAll(s, "//"+h+"/", "//h"+strconv.Itoa(i)+"/")
	}
	return ascii(s)
}

func (s *servers) serve(n int, w http.ResponseWriter, req *http.Request) {
	u := "http://h" + strconv.Itoa(n) + req.RequestURI
	s.mu.Lock()
	s.log = append(s.log, u)
	var r *NRoute
	for i := range s.routes {
		if s.routes[i].U == u {
			r = &s.routes[i]
		}
	}
	if r == nil { // a project page without the slash
		for i := range s.routes {
			if s.routes[i].U == u+"/" {
				s.mu.Unlock()
				http.Redirect(w, req, req.RequestURI+"/", http.StatusMovedPermanently)
				return
			}
		}
	}
	s.mu.Unlock()
	if r == nil {
		http.Error(w, "<a href='/decoy/none'>none</a>", http.StatusNotFound)
		return
	}
	body := r.content()
	if r.Loc != "" {
		w.Header().Set("Location", realURL(r.Loc))
	}
	w.Header().Set("Content-Type", pick(rand.New(rand.NewSource(r.Style)), "text/html", "application/octet-stream", "text/html; charset=utf-8"))
	abort := func() {
		hj, ok := w.(http.Hijacker)
		if !ok {
			panic(http.ErrAbortHandler)
		}
		c, buf, err := hj.Hijack()
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		_ = buf.Flush()
		_ = c.Close()
	}
	switch r.Fault {
	case "close":
		abort()
		return
	case "cut":
		w.Header().Set("Content-Length", strconv.Itoa(len(body)+1+int(r.Style%50)))
		w.WriteHeader(r.St)
		_, _ = w.Write(body)
		return // the server closes the connection
	case "late": // a part of the body, then nothing
		w.Header().Set("Content-Length", strconv.Itoa(len(body)+1))
		w.WriteHeader(r.St)
		_, _ = w.Write(body[:len(body)/2])
		return
	case "chunkcut":
		w.WriteHeader(r.St)
		_, _ = w.Write(body)
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
		panic(http.ErrAbortHandler)
	case "chunks":
		w.WriteHeader(r.St)
		for len(body) > 0 {
			k := 1 + int(r.Style)%7
			if k > len(body) || len(body) > 2000 {
				k = len(body)
			}
			_, _ = w.Write(body[:k])
			body = body[k:]
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		}
		return
	case "gzip", "gzipcut", "badgzip":
		if !strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") && r.Fault == "gzip" {
			break
		}
		var buf bytes.Buffer
		zw := gzip.NewWriter(&buf)
		_, _ = zw.Write(body)
		_ = zw.Close()
		zb := buf.Bytes()
		if r.Fault == "gzipcut" {
			zb = zb[:len(zb)-5]
		}
		if r.Fault == "badgzip" {
			zb[len(zb)-6] ^= 0x20
		}
		w.Header().Set("Content-Encoding", "gzip")
		w.Header().Set("Content-Length", strconv.Itoa(len(zb)))
		w.WriteHeader(r.St)
		_, _ = w.Write(zb)
		return
	}
	if r.St != http.StatusNoContent && r.St != http.StatusNotModified {
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
	}
	w.WriteHeader(r.St)
	if r.St != http.StatusNoContent && r.St != http.StatusNotModified {
		_, _ = w.Write(body)
	}
}

func (s *servers) set(routes []NRoute) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.routes = routes
	s.log = nil
}

var digestAlgos = []string{"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}

func hexDigest(algo string, bs []byte) string {
	h, ok := hashers[algo]
	if !ok {
		x := md5.Sum(append([]byte(algo), bs...))
		return hex.EncodeToString(x[:])
	}
	w := h()
	w.Write(bs)
	return hex.EncodeToString(w.Sum(nil))
}

func routesJ(rs []NRoute) []J {
	out := []J{}
	for _, r := range rs {
		digs := [][2]string{}
		body := r.content()
		data := hash8(body)
		if !r.Page {
			for _, a := range digestAlgos {
				digs = append(digs, [2]string{a, hexDigest(a, body)})
			}
		}
		as := []J{}
		for _, a := range r.As {
			at := append([][2]string{}, a.At...)
			sort.Slice(at, func(i, j int) bool { return at[i][0] < at[j][0] })
			href := append([]string{}, a.Href...)
			as = append(as, J{"href": href, "text": a.Text, "at": at})
		}
		meta := append([]string{}, r.Meta...)
		out = append(out, J{"u": r.U, "st": r.St, "loc": r.Loc, "whole": r.whole(), "data": data, "digs": digs, "meta": meta, "as": as})
	}
	return out
}

func httpClient() *http.Client {
	return &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
}

// ---------------------------------------------------------------- selection

type SelFile struct {
	Text   string `json:"text"`
	Yanked bool   `json:"yanked"`
	Req    string `json:"req"`
}

type SelectCase struct {
	Files []SelFile `json:"files"`
	Py    []string  `json:"py"`
	Inst  []string  `json:"inst"`
	Spec  string    `json:"spec"`
	Seed  int64     `json:"seed"`
}

func execSelect(raw json.RawMessage) interface{} {
	var c SelectCase
	must(json.Unmarshal(raw, &c))
	srv := startServers()
	inst := pep425.Installer{}
	instJ := [][]string{}
	for _, s := range c.Inst {
		t, err := pep425.ParseTag(s)
		must(err)
		inst = append(inst, t)
		instJ = append(instJ, strings.SplitN(s, "-", 3))
	}
	var py *pep440.Version
	if len(c.Py) > 0 {
		v, err := pep440.ParseVersion(c.Py[0])
		must(err)
		py = v
	}
	spec, err := pep440.ParseSpecifier(c.Spec)
	must(err)
	rng := rand.New(rand.NewSource(c.Seed))
	runs := []J{}
	for run := 0; run < 4; run++ {
		order := make([]int, len(c.Files))
		for i := range order {
			order[i] = i
			if run == 1 {
				order[i] = len(c.Files) - 1 - i
			}
		}
		if run > 1 {
			rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		}
		page := NRoute{U: "http://h0/simple/proj/", St: 200, Page: true, Style: c.Seed + int64(run)}
		for _, i := range order {
			f := c.Files[i]
			a := NAnchor{Href: []string{"f/" + strconv.Itoa(i+1)}, Text: f.Text}
			if f.Yanked {
				a.At = append(a.At, [2]string{"data-yanked", pick(rng, "", "bad")})
			}
			if f.Req != "" {
				a.At = append(a.At, [2]string{"data-requires-python", f.Req})
			}
			page.As = append(page.As, a)
		}
		srv.set([]NRoute{page})
		client := simple_repo_api.NewClient(py, inst)
		client.BaseURL = realURL("http://h0/simple/")
		client.HTTPClient = httpClient()
		link, err := client.SelectWheel(context.Background(), "proj", spec)
		j := J{"err": err != nil, "i": 0}
		if err == nil {
			if n, err := strconv.Atoi(strings.TrimPrefix(modelURL(link.HRef), "http://h0/simple/proj/f/")); err == nil {
				j["i"] = n
			} else {
				j["i"] = -1
			}
		}
		runs = append(runs, j)
	}
	files := []J{}
	for _, f := range c.Files {
		files = append(files, J{"text": f.Text, "yanked": f.Yanked, "req": f.Req})
	}
	return J{"k": "select", "files": files, "py": append([]string{}, c.Py...), "inst": instJ, "spec": c.Spec, "runs": runs}
}

var selTags = []string{"cp39-cp39-linux_x86_64", "cp39-abi3-linux_x86_64", "py3-none-linux_x86_64", "cp39-none-any", "py39-none-any", "py3-none-any", "py2.py3-none-any", "cp27-cp27m-linux_x86_64", "py2-none-any", "cp38-cp38-win32", "cp39.cp38-abi3-linux_x86_64.linux_i686"}

func genSelect(rng *rand.Rand, i int) interface{} {
	var c SelectCase
	c.Files, c.Py, c.Seed = []SelFile{}, []string{}, rng.Int63n(1<<30)
	if !chance(rng, 4) {
		c.Py = []string{pick(rng, "3.9", "3.9.1", "2.7.18", "3.10.0a1", "3.8")}
	}
	c.Inst = []string{"cp39-cp39-linux_x86_64", "cp39-abi3-linux_x86_64", "cp39-none-linux_x86_64", "py3-none-linux_x86_64", "cp39-none-any", "py39-none-any", "py3-none-any"}
	if chance(rng, 3) {
		rng.Shuffle(len(c.Inst), func(i, j int) { c.Inst[i], c.Inst[j] = c.Inst[j], c.Inst[i] })
		c.Inst = c.Inst[:1+rng.Intn(len(c.Inst))]
	}
	var pool []string
	for n := 1 + rng.Intn(4); n > 0; n-- {
		pool = append(pool, pick(rng, "1.0", "1.0.0", "1", "1.1", "2.0", "2.0a1", "2.0rc1", "1.0.post1", "2.0.dev1", "1.0+l.1", "10.0", "9.9", "1!0.1", "0.9", "2.0a1+l"))
	}
	builds := []string{"1", "2", "9", "10", "1a", "2_x", "01", "9b", "10a", "2b", "100", "010a", "9.z"}
	same := ""
	if chance(rng, 3) {
		same = "proj-" + pick(rng, pool...) + "@-" + selTags[rng.Intn(len(selTags))] + ".whl"
	}
	for n := rng.Intn(9); n > 0; n-- {
		f := SelFile{Yanked: chance(rng, 3)}
		v := pick(rng, pool...)
		b := ""
		if chance(rng, 3) {
			b = "-" + pick(rng, builds...)
		}
		if same != "" && chance(rng, 2) { // files that differ in the build tag only
			f.Text = strings.Replace(same, "@", "-"+pick(rng, builds...), 1)
			if chance(rng, 6) {
				f.Text = strings.Replace(same, "@", "", 1)
			}
			f.Yanked = chance(rng, 6)
			c.Files = append(c.Files, f)
			continue
		}
		f.Text = pick(rng, "proj", "Proj", "other") + "-" + v + b + "-" + selTags[rng.Intn(len(selTags))] + ".whl"
		if chance(rng, 12) {
			f.Text = pick(rng, "proj-"+v+".tar.gz", "proj-"+v+".whl", "proj-x-py3-none-any.whl", "proj-"+v+"-py3-none-any.zip", "proj-"+v+"-x-py3-none-any.whl", "", "proj-"+v+"-py3-none-any.WHL")
		}
		if chance(rng, 4) {
			f.Req = pick(rng, ">=3.6", "<3", ">=2.7,!=3.0.*", "!=3.9", "3.9", ">3.9", ">=3.10", "garbage", ">=3.9,<4", "~=3.6", "<=3.9")
		}
		c.Files = append(c.Files, f)
	}
	c.Spec = pick(rng, "", "", ">=1.0", "<2", "==1.0", "!=1.0", "~=1.0", ">1.0", "==2.0a1", ">=2.0a1", "<1.0", "==1.*", "<=2.0,>=1", ">5", "==1.0+l.1", ">=2.0.dev0,<2.0")
	return c
}

type PickCase struct {
	Spec  string   `json:"spec"`
	Vers  []string `json:"vers"`
	Mode  string   `json:"mode"`
	Allow []string `json:"allow"`
}

type noLocal struct{}

func (noLocal) Allow(v pep440.Version) bool { return len(v.Local) == 0 }

func execPick(raw json.RawMessage) interface{} {
	var c PickCase
	must(json.Unmarshal(raw, &c))
	spec, err := pep440.ParseSpecifier(c.Spec)
	must(err)
	var vs, al []pep440.Version
	for _, s := range c.Vers {
		v, err := pep440.ParseVersion(s)
		must(err)
		vs = append(vs, *v)
	}
	for _, s := range c.Allow {
		v, err := pep440.ParseVersion(s)
		must(err)
		al = append(al, *v)
	}
	var ex pep440.ExclusionBehavior
	switch c.Mode {
	case "all":
		ex = pep440.AllowAll{}
	case "none":
		ex = pep440.MultiExcluder{}
	case "pre":
		ex = pep440.ExcludePreReleases{AllowList: al}
	case "multi":
		ex = pep440.MultiExcluder{pep440.ExcludePreReleases{AllowList: al}, noLocal{}}
	}
	got := []string{}
	if v := spec.Select(vs, ex); v != nil {
		got = append(got, v.String())
	}
	return J{"k": "pick", "spec": c.Spec, "vers": append([]string{}, c.Vers...), "mode": c.Mode, "allow": append([]string{}, c.Allow...), "got": got}
}

func genPick(rng *rand.Rand, i int) interface{} {
	c := PickCase{Vers: []string{}, Allow: []string{}, Mode: pick(rng, "nil", "all", "none", "pre", "pre", "multi")}
	v := func() string {
		return pick(rng, "1.0", "1.0.0", "1", "1.1", "2.0", "2.0a1", "2.0rc1", "1.0.post1", "2.0.dev1", "1.0+l.1", "2.0+z", "10.0", "9.9", "1!0.1", "1!0.1a2", "0.9", "1.0.post1.dev2", "2.0a1+l", "2.0a1+m.2", "2.0.0a1")
	}
	for n := rng.Intn(8); n > 0; n-- {
		c.Vers = append(c.Vers, v())
	}
	if chance(rng, 3) {
		c.Allow = append(c.Allow, v(), v())
	}
	c.Spec = pick(rng, "", ">=", "<", "==", "!=", "~=", ">", "<=")
	if c.Spec != "" {
		x := v()
		if c.Spec != "==" && c.Spec != "!=" {
			x = strings.Split(x, "+")[0]
		}
		if c.Spec == "~=" {
			x = pick(rng, "1.0", "2.0a1", "1.0.0", "1!0.1")
		}
		c.Spec += x
	}
	return c
}

// ---------------------------------------------------------------- downloads

type NetCase struct {
	Routes []NRoute `json:"routes"`
	Base   string   `json:"base"`
	Name   string   `json:"name"`
	Py     []string `json:"py"`
	File   string   `json:"file"` // for getwheel
}

func linkJ(l pep503.Link) J {
	at := [][2]string{}
	for k, v := range l.DataAttrs {
		at = append(at, [2]string{ascii(k), ascii(v)})
	}
	sort.Slice(at, func(i, j int) bool { return at[i][0] < at[j][0] })
	return J{"href": modelURL(l.HRef), "text": ascii(l.Text), "at": at}
}

func errMsg(err error) string {
	if err == nil {
		return ""
	}
	return modelURL(err.Error())
}

func execNet(raw json.RawMessage) interface{} {
	var c NetCase
	must(json.Unmarshal(raw, &c))
	srv := startServers()
	srv.set(c.Routes)
	var py *pep440.Version
	if len(c.Py) > 0 {
		v, err := pep440.ParseVersion(c.Py[0])
		must(err)
		py = v
	}
	client := simple_repo_api.NewClient(py, nil)
	client.BaseURL = realURL(c.Base)
	client.HTTPClient = httpClient()
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	listJ := func(href string, links []pep503.Link, err error) J {
		ls := []J{}
		for _, l := range links {
			ls = append(ls, linkJ(l))
		}
		return J{"href": href, "err": err != nil, "msg": errMsg(err), "links": ls}
	}
	plain := func(fs []pep503.FileLink) (ls []pep503.Link) {
		for _, f := range fs {
			ls = append(ls, f.Link)
		}
		return ls
	}
	files, err := client.ListPackageFiles(ctx, c.Name)
	list := listJ("", plain(files), err)
	all := append([]pep503.FileLink{}, files...)
	if err != nil {
		all = nil
	}
	pkgs, err := client.ListPackages(ctx)
	var pl []pep503.Link
	for _, p := range pkgs {
		pl = append(pl, p.Link)
	}
	pkgsJ := listJ("", pl, err)
	subs := []J{}
	if err == nil {
		for _, p := range pkgs {
			if p.HRef == "" {
				continue
			}
			fs, err := p.ListFiles(ctx)
			subs = append(subs, listJ(modelURL(p.HRef), plain(fs), err))
			if err == nil {
				all = append(all, fs...)
			}
		}
	}
	gets, sigs := []J{}, []J{}
	seen := map[string]bool{}
	for _, f := range all {
		if f.HRef == "" || seen[f.HRef] {
			continue
		}
		seen[f.HRef] = true
		bs, err := f.Get(ctx)
		gets = append(gets, J{"href": modelURL(f.HRef), "err": err != nil, "data": hash8(bs), "msg": errMsg(err)})
		sb, err := f.GetSignature(ctx)
		j := linkJ(f.Link)
		switch {
		case errors.Is(err, pep503.ErrNoSignature):
			j["res"] = "none"
		case err != nil:
			j["res"] = "err"
		default:
			j["res"] = "=" + hash8(sb)
		}
		sigs = append(sigs, j)
	}
	return J{"k": "net", "routes": routesJ(c.Routes), "base": c.Base, "name": c.Name, "py": append([]string{}, c.Py...), "list": list, "pkgs": pkgsJ, "subs": subs, "gets": gets, "sigs": sigs}
}

func genRoutes(rng *rand.Rand) NetCase {
	c := NetCase{Py: []string{}, Base: pick(rng, "http://h0/simple/", "http://h0/simple/", "http://h1/a/b/simple/", "http://h0/")}
	c.Name = pick(rng, "proj", "Proj", "My.Proj", "my--proj_X", "a.-_b", "x1", "-a", "_b.", "a__", ".-_", "A-B")
	norm := strings.ToLower(c.Name)
	for _, ch := range []string{".", "_"} {
		norm = strings.ReplaceAll(norm, ch, "-")
	}
	for strings.Contains(norm, "--") {
		norm = strings.ReplaceAll(norm, "--", "-")
	}
	if !chance(rng, 3) {
		c.Py = []string{pick(rng, "3.9", "3.6.2", "2.7")}
	}
	status := func() int {
		return []int{200, 200, 200, 200, 200, 200, 404, 500, 403, 304, 206, 204, 301, 503, 410}[rng.Intn(15)]
	}
	fault := func(odds int) string {
		if !chance(rng, odds) {
			return pick(rng, "", "", "chunks", "gzip")
		}
		return pick(rng, "cut", "late", "chunkcut", "close", "gzipcut", "badgzip")
	}
	// the files
	type fileAt struct {
		url  string
		body []byte
	}
	var files []fileAt
	add := func(r NRoute) { c.Routes = append(c.Routes, r) }
	for n := 1 + rng.Intn(4); n > 0; n-- {
		u := "http://h" + strconv.Itoa(rng.Intn(2)) + pick(rng, "/p/", "/a/b/simple/", "/simple/"+norm+"/", "/packages/x/y/") + pick(rng, "f", "a%20b", "x-1.0", "g+h", "a%2Fb", "c%2Bd") + strconv.Itoa(n) + ".whl"
		r := NRoute{U: u, St: status(), Fault: fault(4), Body: pick(rng, "content", "other", "x", "") + strconv.Itoa(n), Style: rng.Int63n(1000)}
		if chance(rng, 8) {
			r.Big = 1 + rng.Intn(100000)
		}
		if r.St == 301 { // without a place to go to
			r.Fault = ""
		}
		if r.St != 200 {
			r.Fault = ""
		}
		if chance(rng, 5) { // moved
			to := strings.Replace(u, ".whl", ".bin", 1)
			hop := NRoute{U: u, St: []int{301, 302, 303, 307, 308}[rng.Intn(5)], Loc: to, Style: 1}
			if chance(rng, 3) {
				hop.Loc = to[strings.Index(to[7:], "/")+7:]
			}
			if chance(rng, 8) {
				hop.Loc = u
			}
			add(hop)
			files = append(files, fileAt{u, r.content()})
			r.U = to
			add(r)
		} else {
			add(r)
			files = append(files, fileAt{u, r.content()})
		}
		if chance(rng, 2) {
			sig := NRoute{U: u + ".asc", St: status(), Body: "sig" + strconv.Itoa(n), Style: rng.Int63n(1000)}
			if sig.St == 200 {
				sig.Fault = fault(5)
			}
			add(sig)
		}
		if chance(rng, 6) {
			add(NRoute{U: u + "?v=1", St: 200, Body: "query" + strconv.Itoa(n), Style: 3})
			files = append(files, fileAt{u + "?v=1", []byte("query" + strconv.Itoa(n))})
		}
	}
	spell := func(page, u string) string {
		p := u[strings.Index(u[7:], "/")+7:]
		host := u[:len(u)-len(p)]
		same := strings.HasPrefix(page, host+"/")
		switch k := rng.Intn(5); {
		case k == 0 && same:
			return p
		case k == 1 && same:
			return strings.Repeat("../", 6) + strings.TrimPrefix(p, "/")
		case k == 2 && same:
			depth := strings.Count(page, "/") - 3
			return pick(rng, "./", "") + strings.Repeat("../", depth) + pick(rng, "", "./", "x/../") + strings.TrimPrefix(p, "/")
		case k == 3:
			return u[5:]
		}
		if chance(rng, 5) {
			return strings.Replace(u, p, "/zz/.."+p, 1)
		}
		return u
	}
	frag := func(body []byte) string {
		algo := pick(rng, "sha256", "sha256", "md5", "sha1", "sha224", "sha384", "sha512")
		good := algo + "=" + hexDigest(algo, body)
		bad := []byte(good)
		if c := &bad[len(bad)-1-rng.Intn(8)]; *c == '0' {
			*c = '1'
		} else {
			*c = '0'
		}
		other := pick(rng, "md5", "sha256", "sha512")
		switch rng.Intn(12) {
		case 0, 1:
			return ""
		case 2, 3:
			return "#" + string(bad)
		case 4:
			return "#" + good + "&" + other + "=" + hexDigest(other, body)
		case 5:
			return "#" + good + "&" + other + "=" + hexDigest(other, append(body, 'x'))
		case 6:
			return "#egg=x&" + good
		case 7:
			return "#" + pick(rng, "blake2b=00", "egg=proj", "SHA256=00", "sha3_256=aa", "subdirectory=x")
		case 8:
			return pick(rng, "#"+good+";x", "#"+good[:len(good)-2], "#"+good+"&"+string(bad), "#"+algo+"=", "#"+good+"00", "#"+good)
		}
		return "#" + good
	}
	anchors := func(page string) []NAnchor {
		as := []NAnchor{}
		for n := rng.Intn(5); n > 0; n-- {
			f := files[rng.Intn(len(files))]
			a := NAnchor{Href: []string{spell(page, f.url) + frag(f.body)}, Text: pick(rng, "proj-1.0-py3-none-any.whl", "my_proj-2.0-py2.py3-none-any.whl", "a & b <c>.whl", "proj-1.0.tar.gz", "x", "", "spaced  out", "proj-1.0-1-py3-none-any.whl", "q\"uote'.whl"), At: [][2]string{}}
			if chance(rng, 10) {
				a.Href = []string{pick(rng, "missing.whl", "/nowhere/x.whl#sha256=00", "../gone.whl", "http://h1/none.whl", "?q=1", "#top", ".", "..", "./", "d/..", "http://h0/x/")}
			}
			if chance(rng, 20) {
				a.Href = []string{}
			}
			if chance(rng, 4) {
				a.At = append(a.At, [2]string{"data-yanked", pick(rng, "", "reason", "a \"b\" & c")})
			}
			if chance(rng, 3) {
				a.At = append(a.At, [2]string{"data-requires-python", pick(rng, ">=3.6", "<3", ">=2.7,!=3.9", "garbage", "3.9", ">=3.9 , <4", "", ">3.6.2")})
			}
			if chance(rng, 3) {
				a.At = append(a.At, [2]string{"data-gpg-sig", pick(rng, "true", "false", "", "True")})
			}
			if chance(rng, 6) {
				a.At = append(a.At, [2]string{"data-x-other", pick(rng, "v", " v ", "", "V  w", "true ")})
			}
			as = append(as, a)
		}
		return as
	}
	meta := func() []string {
		if chance(rng, 2) {
			return nil
		}
		return []string{pick(rng, "1.0", "1.0", "1.1", "1.99", "2.0", "2", "10.1", "0.9", "1", "x", "", "3.0a1", "1.0 ")}
	}
	page := func(u string) {
		r := NRoute{U: u, St: 200, Page: true, Meta: meta(), As: anchors(u), Style: rng.Int63n(1 << 30), Fault: fault(12)}
		if chance(rng, 12) {
			r.St = status()
			if r.St != 200 {
				r.Fault = ""
			}
		}
		add(r)
	}
	start := c.Base + norm + "/"
	at := start
	for chance(rng, 4) { // redirected
		to := "http://h" + strconv.Itoa(rng.Intn(2)) + pick(rng, "/mirror/", "/m/n/o/") + norm + strconv.Itoa(rng.Intn(99)) + pick(rng, "/", "/index.html", "")
		loc := to
		if strings.HasPrefix(at, to[:9]) && chance(rng, 2) {
			loc = to[9:]
		}
		add(NRoute{U: at, St: []int{301, 302, 303, 307, 308}[rng.Intn(5)], Loc: loc, Style: 1})
		at = to
	}
	page(at)
	// the root page
	if c.Base != at && chance(rng, 2) {
		root := NRoute{U: c.Base, St: 200, Page: true, Meta: meta(), Style: rng.Int63n(1 << 30), Fault: fault(15), As: []NAnchor{}}
		for n := rng.Intn(4); n > 0; n-- {
			root.As = append(root.As, NAnchor{Href: []string{pick(rng, norm+"/", "./"+norm+"/", start, "nothing/", at, "http://h1/other/")}, Text: pick(rng, c.Name, norm, "Other"), At: [][2]string{}})
		}
		add(root)
		if chance(rng, 3) && at != "http://h1/other/" {
			page("http://h1/other/")
		}
	}
	var uniq []NRoute // of two routes with one URL the last counts
	for k, r := range c.Routes {
		later := false
		for _, x := range c.Routes[k+1:] {
			later = later || x.U == r.U
		}
		if !later {
			uniq = append(uniq, r)
		}
	}
	c.Routes = uniq
	return c
}

func genNet(rng *rand.Rand, i int) interface{} {
	c := genRoutes(rng)
	if chance(rng, 25) {
		c.Name = pick(rng, "a/b", "../x", "a b", "a?b", "proj#x", "a%2fb", "pröj", "a\\b", "..;")
	}
	return c
}

func genGetWheel(rng *rand.Rand, i int) interface{} {
	for {
		c := genRoutes(rng)
		c.File = pick(rng, "proj-1.0-py3-none-any.whl", "proj-1.0-1-py3-none-any.whl", "my_proj-2.0-py2.py3-none-any.whl", "Proj-1.0-py3-none-any.whl", "proj-1.0.whl", "x")
		norm := strings.ReplaceAll(strings.ToLower(strings.Split(c.File, "-")[0]), "_", "-")
		for k := range c.Routes {
			if c.Routes[k].Page && len(c.Routes[k].As) > 0 && !chance(rng, 4) {
				c.Routes[k].As[0].Text = c.File
			}
		}
		has := false
		for _, r := range c.Routes {
			has = has || r.U == c.Base+norm+"/"
		}
		if !has && !chance(rng, 12) {
			if strings.HasPrefix(c.File, "my_") != strings.HasPrefix(c.Name, "my") || rng.Intn(2) == 0 {
				continue
			}
			continue
		}
		return c
	}
}

func execGetWheel(raw json.RawMessage) interface{} {
	var c NetCase
	must(json.Unmarshal(raw, &c))
	srv := startServers()
	srv.set(c.Routes)
	cmd := exec.Command(os.Getenv("VERIF_OCIBUILD"), "python", "getwheel", "--index-server="+realURL(c.Base), c.File)
	cmd.Env = envWithout("HTTP_PROXY", "http_proxy", "ALL_PROXY")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	must(cmd.Start())
	late := time.AfterFunc(cmdLimit, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	rc := 0
	if werr != nil {
		ee, ok := werr.(*exec.ExitError)
		if !ok {
			must(werr)
		}
		rc = ee.ExitCode()
	}
	if !late.Stop() {
		rc = -9
	}
	if strings.Contains(e.String(), "goroutine ") {
		rc = -2
	}
	return J{"k": "getwheel", "routes": routesJ(c.Routes), "base": c.Base, "file": c.File, "rc": rc, "data": hash8(o.Bytes()), "any": o.Len() > 0, "msg": e.Len() > 0, "text": fmt.Sprint(ascii(e.String()))}
}
