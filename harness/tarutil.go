package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	ociv1types "github.com/google/go-containerregistry/pkg/v1/types"
)

// Ent is one layer entry of a case.
type Ent struct {
	Name string `json:"name"`
	Type string `json:"type"` // dir reg sym lnk chr blk fifo
	Link string `json:"link,omitempty"`
	Meta int64  `json:"meta,omitempty"` // seed of all other attributes and the content
}

var typeFlags = map[string]byte{
	"dir": tar.TypeDir, "reg": tar.TypeReg, "sym": tar.TypeSymlink, "lnk": tar.TypeLink,
	"chr": tar.TypeChar, "blk": tar.TypeBlock, "fifo": tar.TypeFifo,
}

func typeName(b byte) string {
	for k, v := range typeFlags {
		if v == b {
			return k
		}
	}
	return fmt.Sprintf("type%d", b)
}

// body makes the content belonging to a meta seed.
func metaBody(meta int64) []byte {
	if meta == 0 {
		return nil
	}
	rng := rand.New(rand.NewSource(meta * 7919))
	sizes := []int{0, 1, 2, 7, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 10000}
	n := sizes[rng.Intn(len(sizes))]
	if rng.Intn(40) == 0 {
		n = 70000
	}
	bs := make([]byte, n)
	rng.Read(bs)
	return bs
}

// header makes the tar header belonging to an entry.
func (e Ent) header() (*tar.Header, []byte) {
	rng := rand.New(rand.NewSource(e.Meta*104729 + 17))
	hdr := &tar.Header{Name: e.Name, Typeflag: typeFlags[e.Type], Linkname: e.Link, Mode: 0o644}
	var body []byte
	if e.Type == "reg" {
		body = metaBody(e.Meta)
		hdr.Size = int64(len(body))
	}
	if e.Meta == 0 {
		return hdr, body
	}
	modes := []int64{0o644, 0o755, 0o600, 0o4755, 0o2755, 0o1777, 0o000, 0o7777, 0o444, 0o100644, 0o40755}
	hdr.Mode = modes[rng.Intn(len(modes))]
	ids := []int{0, 1, 1000, 65534, 0o7777777, 3000000, 99}
	hdr.Uid = ids[rng.Intn(len(ids))]
	hdr.Gid = ids[rng.Intn(len(ids))]
	names := []string{"", "root", "user", "nobody", "a-very-long-user-name-that-does-not-fit-in-thirty-two-bytes"}
	hdr.Uname = names[rng.Intn(len(names))]
	hdr.Gname = names[rng.Intn(len(names))]
	secs := []int64{0, 1, 1500000000, 1700000000, 2000000000, 253402300799, 86400}
	hdr.ModTime = time.Unix(secs[rng.Intn(len(secs))], 0)
	if e.Type == "chr" || e.Type == "blk" {
		hdr.Devmajor = int64(rng.Intn(300))
		hdr.Devminor = int64(rng.Intn(300))
	}
	switch rng.Intn(6) {
	case 0: // PAX with everything
		hdr.Format = tar.FormatPAX
		hdr.ModTime = hdr.ModTime.Add(time.Duration(rng.Intn(1000000000)))
		hdr.AccessTime = time.Unix(1400000000, int64(rng.Intn(1000000000)))
		hdr.ChangeTime = time.Unix(1400000001, int64(rng.Intn(1000000000)))
		hdr.PAXRecords = map[string]string{
			"SCHILY.xattr.security.capability": string([]byte{1, 0, 0, 2, 0x20, 4}),
			"SCHILY.xattr.user.foo":            fmt.Sprint(rng.Intn(100)),
			"VENDOR.key":                       fmt.Sprint(rng.Intn(100)),
		}
	case 1:
		hdr.Format = tar.FormatPAX
		hdr.PAXRecords = map[string]string{"SCHILY.xattr.user.bar": fmt.Sprint(rng.Intn(100))}
	case 2:
		hdr.Format = tar.FormatGNU
		hdr.Uname, hdr.Gname = "root", "wheel"
		hdr.ModTime = hdr.ModTime.Truncate(time.Second)
		if rng.Intn(2) == 0 {
			hdr.AccessTime = time.Unix(1400000000, 0)
			hdr.ChangeTime = time.Unix(1400000002, 0)
		}
	}
	return hdr, body
}

func buildTar(ents []Ent) []byte {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, e := range ents {
		hdr, body := e.header()
		must(tw.WriteHeader(hdr))
		_, err := tw.Write(body)
		must(err)
	}
	must(tw.Close())
	return buf.Bytes()
}

// memLayer is an uncompressed in-memory layer.
type memLayer []byte

func (l memLayer) DiffID() (ociv1.Hash, error) {
	h, _, err := ociv1.SHA256(bytes.NewReader(l))
	return h, err
}
func (l memLayer) Digest() (ociv1.Hash, error)              { return l.DiffID() }
func (l memLayer) Compressed() (io.ReadCloser, error)       { return io.NopCloser(bytes.NewReader(l)), nil }
func (l memLayer) Uncompressed() (io.ReadCloser, error)     { return io.NopCloser(bytes.NewReader(l)), nil }
func (l memLayer) Size() (int64, error)                     { return int64(len(l)), nil }
func (l memLayer) MediaType() (ociv1types.MediaType, error) { return ociv1types.DockerLayer, nil }

func layerOf(bs []byte) ociv1.Layer { return memLayer(bs) }

var fastLayer = ociv1tarball.WithCompressionLevel(gzip.NoCompression)

type rawEnt struct {
	Hdr  *tar.Header
	Body []byte
}

// readTar parses a tarball independently of the code under test.
func readTar(bs []byte) ([]rawEnt, error) {
	var ret []rawEnt
	tr := tar.NewReader(bytes.NewReader(bs))
	for {
		hdr, err := tr.Next()
		if err == io.EOF {
			return ret, nil
		}
		if err != nil {
			return ret, err
		}
		body, err := io.ReadAll(tr)
		if err != nil {
			return ret, err
		}
		ret = append(ret, rawEnt{hdr, body})
	}
}

func hash8(bs []byte) string {
	s := sha256.Sum256(bs)
	return hex.EncodeToString(s[:6])
}

// token stands for every attribute of an entry except its name.
func (r rawEnt) token() string { return hash8([]byte(r.describe())) }

func (r rawEnt) describe() string {
	h := r.Hdr
	pax := make([]string, 0, len(h.PAXRecords))
	for k, v := range h.PAXRecords {
		if k == "path" || k == "linkpath" || k == "mtime" || k == "atime" || k == "ctime" || k == "uid" || k == "gid" || k == "uname" || k == "gname" || k == "size" {
			continue // represented by the fields proper
		}
		pax = append(pax, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(pax)
	return fmt.Sprintf("type=%c link=%q size=%d mode=%o uid=%d gid=%d uname=%q gname=%q mtime=%s atime=%s ctime=%s dev=%d,%d pax=%v body=%s",
		h.Typeflag, h.Linkname, h.Size, h.Mode, h.Uid, h.Gid, h.Uname, h.Gname,
		nano(h.ModTime), nano(h.AccessTime), nano(h.ChangeTime), h.Devmajor, h.Devminor, pax, hash8(r.Body))
}

func nano(t time.Time) string {
	if t.IsZero() {
		return "-"
	}
	return fmt.Sprintf("%d.%09d", t.Unix(), t.Nanosecond())
}

// comps splits a slash-separated name; ok for the empty string.
func comps(s string) ([]string, bool) {
	abs := strings.HasPrefix(s, "/")
	if s == "" {
		return []string{}, false
	}
	return strings.Split(strings.TrimPrefix(s, "/"), "/"), abs
}

// entJ is the representation of an entry in events.
func entJ(r rawEnt) J {
	c, ab := comps(r.Hdr.Name)
	to, lab := comps(r.Hdr.Linkname)
	return J{"name": r.Hdr.Name, "c": c, "ab": ab, "t": typeName(r.Hdr.Typeflag), "to": to, "lab": lab, "m": r.token()}
}

func entsJ(rs []rawEnt) []J {
	ret := make([]J, 0, len(rs))
	for _, r := range rs {
		ret = append(ret, entJ(r))
	}
	return ret
}

func layerBytes(l ociv1.Layer) ([]byte, error) {
	rc, err := l.Uncompressed()
	if err != nil {
		return nil, err
	}
	defer rc.Close()
	return io.ReadAll(rc)
}

func decode(raw json.RawMessage, v interface{}) { must(json.Unmarshal(raw, v)) }
