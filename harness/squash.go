package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
)

// SquashCase is a stack of layers.  Case "hist" comes from TLC: a list of [l, e].
type SquashCase struct {
	KF     string  `json:"kf,omitempty"`
	Layers [][]Ent `json:"layers,omitempty"`
	Hist   []struct {
		L int `json:"l"`
		E struct {
			C   []string `json:"c"`
			T   string   `json:"t"`
			To  []string `json:"to"`
			Lab bool     `json:"lab"`
		} `json:"e"`
	} `json:"hist,omitempty"`
	Mix int64 `json:"mix,omitempty"` // seed: interleave markers and files, vary spelling of names
}

func (c *SquashCase) expand() [][]Ent {
	if c.Hist == nil {
		return c.Layers
	}
	var layers [][]Ent
	for i, h := range c.Hist {
		for len(layers) <= h.L {
			layers = append(layers, nil)
		}
		link := strings.Join(h.E.To, "/")
		if h.E.Lab {
			link = "/" + link
		}
		layers[h.L] = append(layers[h.L], Ent{Name: strings.Join(h.E.C, "/"), Type: h.E.T, Link: link, Meta: int64(i+1) + c.Mix*31})
	}
	if c.Mix != 0 {
		rng := rand.New(rand.NewSource(c.Mix))
		for i := range layers {
			layers[i] = mixMarkers(rng, layers[i])
		}
	}
	return layers
}

// mixMarkers moves markers to random places (which must not change the meaning of a layer).
func mixMarkers(rng *rand.Rand, ents []Ent) []Ent {
	var ms, fs, out []Ent
	for _, e := range ents {
		if strings.HasPrefix(e.Name[strings.LastIndex(e.Name, "/")+1:], ".wh.") {
			ms = append(ms, e)
		} else {
			fs = append(fs, e)
		}
	}
	for len(ms)+len(fs) > 0 {
		if len(ms) > 0 && rng.Intn(len(ms)+len(fs)) < len(ms) {
			out, ms = append(out, ms[0]), ms[1:]
		} else {
			out, fs = append(out, fs[0]), fs[1:]
		}
	}
	return out
}

func spell(rng *rand.Rand, name, typ string) string {
	if typ == "dir" && rng.Intn(2) == 0 {
		name += "/"
	}
	switch rng.Intn(12) {
	case 0:
		return "./" + name
	case 1:
		return strings.Replace(name, "/", "//", 1)
	case 2:
		return strings.Replace(name, "/", "/./", 1)
	case 3:
		return "q/../" + name
	}
	return name
}

var squashNames = []string{"a", "b", "c", "d.wh.x", "long-name-that-is-repeated-to-exceed-the-limit-of-one-hundred-bytes-in-a-ustar-header-name-field-1", ".hid", ".whx", ".wh", "w", "..x"}

func randPath(rng *rand.Rand, max int) string {
	n := 1 + rng.Intn(max)
	var cs []string
	for i := 0; i < n; i++ {
		k := rng.Intn(14)
		switch {
		case k < 10:
			cs = append(cs, squashNames[k%3])
		case k < 13:
			cs = append(cs, squashNames[3+rng.Intn(len(squashNames)-3)])
		default:
			cs = append(cs, "b")
		}
	}
	return strings.Join(cs, "/")
}

func genSquash(rng *rand.Rand, i int) interface{} {
	c := SquashCase{}
	nl := 1 + rng.Intn(5)
	var regs []string // targets for hard links
	for l := 0; l < nl; l++ {
		var ents []Ent
		ne := 1 + rng.Intn(6)
		if rng.Intn(30) == 0 {
			ne += 30
		}
		for e := 0; e < ne; e++ {
			p := randPath(rng, 4)
			ent := Ent{Meta: rng.Int63n(1 << 30)}
			switch k := rng.Intn(20); {
			case k < 6:
				ent.Type, ent.Name = "reg", p
				regs = append(regs, p)
			case k < 11:
				ent.Type, ent.Name = "dir", p
				if rng.Intn(12) == 0 {
					ent.Name = "."
				}
			case k < 14:
				ent.Type, ent.Name = "sym", p
				ent.Link = randTarget(rng)
			case k < 17:
				ent.Type = "reg"
				j := strings.LastIndex(p, "/") + 1
				ent.Name = p[:j] + ".wh." + p[j:]
				if rng.Intn(3) > 0 {
					ent.Meta = 0
				}
			case k < 18:
				ent.Type, ent.Name = "reg", ".wh..wh..opq"
				ent.Meta = 0
				if rng.Intn(5) > 0 {
					ent.Name = p + "/" + ent.Name
				}
			case k < 19:
				ent.Type, ent.Name = []string{"chr", "blk", "fifo"}[rng.Intn(3)], p
				regs = append(regs, p)
			default:
				if len(regs) == 0 {
					continue
				}
				ent.Type, ent.Name, ent.Link = "lnk", p, regs[rng.Intn(len(regs))]
			}
			ents = append(ents, ent)
		}
		ents = mixMarkers(rng, ents)
		for j := range ents {
			ents[j].Name = spell(rng, ents[j].Name, ents[j].Type)
		}
		c.Layers = append(c.Layers, ents)
	}
	if rng.Intn(25) == 0 { // an entry outside of the root
		l := rng.Intn(len(c.Layers))
		names := []string{"../x", "/abs/x", "a/../../x", "..", "/", "../../a/b", "./../a"}
		typ := "reg"
		name := names[rng.Intn(len(names))]
		if name == "/" {
			typ = "dir"
		}
		c.Layers[l] = append(c.Layers[l], Ent{Name: name, Type: typ, Meta: 5})
	}
	return c
}

func randTarget(rng *rand.Rand) string {
	t := randPath(rng, 3)
	switch rng.Intn(8) {
	case 0, 1:
		t = "/" + t
	case 2:
		t = "../" + t
	case 3:
		t = "../../" + t
	case 4:
		t = "./" + t
	case 5:
		if rng.Intn(3) == 0 {
			t = []string{"/", ".", "..", "../..", "./"}[rng.Intn(5)]
		}
	}
	return t
}

func execSquash(raw json.RawMessage) interface{} {
	var c SquashCase
	decode(raw, &c)
	layers := c.expand()
	var in []ociv1.Layer
	inJ := [][]J{}
	var bss [][]byte
	for _, l := range layers {
		bs := buildTar(l)
		bss = append(bss, bs)
		in = append(in, layerOf(bs))
		rs, err := readTar(bs)
		must(err)
		inJ = append(inJ, entsJ(rs))
	}
	ev := J{"in": inJ, "err": "", "out": []J{}, "same": true, "kf": c.KF}
	out, err := squash.Squash(in, fastLayer)
	if err != nil {
		ev["err"] = fmt.Sprint(err)
		return ev
	}
	bs, err := layerBytes(out)
	if err != nil {
		ev["err"] = fmt.Sprint(err)
		return ev
	}
	rs, err := readTar(bs)
	if err != nil {
		ev["err"] = "unreadable output: " + fmt.Sprint(err)
		ev["same"] = false
		return ev
	}
	ev["out"] = entsJ(rs)
	// the same inputs again, several times
	same := true
	for k := 0; k < 2; k++ {
		var in2 []ociv1.Layer
		for _, b := range bss {
			in2 = append(in2, layerOf(b))
		}
		out2, err := squash.Squash(in2, fastLayer)
		if err != nil {
			same = false
			break
		}
		bs2, err := layerBytes(out2)
		same = same && err == nil && bytes.Equal(bs, bs2)
	}
	ev["same"] = same
	return ev
}

func init() {
	suites["squash"] = &Suite{Gen: genSquash, Exec: execSquash}
}
