package main

import (
	"encoding/json"
	"math/rand"
	"strconv"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"k8s.io/apimachinery/pkg/util/intstr"
)

// TagCase is an installer's list and some tags.
type TagCase struct {
	Inst []string `json:"inst"`
	Tags []string `json:"tags"`
}

func randTagPart(rng *rand.Rand, words ...string) string {
	s := pick(rng, words...)
	for chance(rng, 3) {
		s += "." + pick(rng, words...)
	}
	if chance(rng, 40) {
		s = pick(rng, "", ".", s+".", "."+s, strings.ToUpper(s))
	}
	return s
}

func randTag(rng *rand.Rand) string {
	return randTagPart(rng, "py2", "py3", "cp39", "cp3", "py39") + "-" + randTagPart(rng, "none", "abi3", "cp39") + "-" + randTagPart(rng, "any", "linux_x86_64", "manylinux1_x86_64", "win32")
}

func genTags(rng *rand.Rand, i int) interface{} {
	var c TagCase
	c.Inst = []string{}
	for n := rng.Intn(7); n > 0; n-- {
		t := randTag(rng)
		if chance(rng, 2) { // usually not compressed
			parts := strings.Split(t, "-")
			for j := range parts {
				parts[j] = strings.Split(parts[j], ".")[0]
			}
			t = strings.Join(parts, "-")
		}
		c.Inst = append(c.Inst, t)
	}
	for n := 0; n < 4; n++ {
		t := randTag(rng)
		if chance(rng, 10) {
			t = mutateString(rng, t, "-.abpy3")
		}
		c.Tags = append(c.Tags, t)
	}
	return c
}

func tagJ(t pep425.Tag) []string { return []string{t.Python, t.ABI, t.Platform} }

func execTags(raw json.RawMessage) interface{} {
	var c TagCase
	must(json.Unmarshal(raw, &c))
	inst := pep425.Installer{}
	instJ := [][]string{}
	for _, s := range c.Inst {
		t, err := pep425.ParseTag(s)
		must(err)
		inst = append(inst, t)
		instJ = append(instJ, strings.SplitN(s, "-", 3))
	}
	tags := []J{}
	for _, s := range c.Tags {
		t, err := pep425.ParseTag(s)
		j := J{"s": s, "ok": err == nil}
		if err == nil {
			j["t"] = tagJ(t)
			j["str"] = t.String()
			text, err := t.MarshalText()
			var u pep425.Tag
			j["text"] = "unreadable"
			if err == nil && u.UnmarshalText(text) == nil && u == t {
				j["text"] = string(text)
			}
			prod := [][]string{}
			for _, p := range t.Decompress() {
				prod = append(prod, tagJ(p))
			}
			j["prod"] = prod
			j["sup"] = inst.Supports(t)
			j["pref"] = inst.Preference(t)
			inter := []bool{}
			for _, s2 := range c.Tags {
				t2, err := pep425.ParseTag(s2)
				inter = append(inter, err == nil && pep425.Intersect([]pep425.Tag{t}, []pep425.Tag{t2}))
			}
			j["inter"] = inter
		}
		tags = append(tags, j)
	}
	return J{"k": "tags", "inst": instJ, "tags": tags}
}

// NameCase is a list of wheel file names, and of data to generate names from.
type NameCase struct {
	Names []string   `json:"names"`
	Made  [][]string `json:"made,omitempty"` // dist, version, build number, build rest, python, abi, platform
}

func randDist(rng *rand.Rand) string {
	return pick(rng, "foo", "Foo_Bar", "a", "a.b", "a__b", "x._y", "foo2", "_")
}

func randBuild(rng *rand.Rand) string {
	return pick(rng, "1", "2", "10", "01", "1a", "2b", "1_x", "10.1", "0", "1a1", randNum(rng), randNum(rng)+"x")
}

func randName(rng *rand.Rand) string {
	s := randDist(rng) + "-" + strings.ReplaceAll(randVersion(rng), "-", "_")
	if chance(rng, 2) {
		s += "-" + randBuild(rng)
	}
	s += "-" + randTag(rng) + ".whl"
	if chance(rng, 5) {
		s = mutateString(rng, s, "-._ 1awhl")
	}
	return s
}

func genNames(rng *rand.Rand, i int) interface{} {
	var c NameCase
	for n := 0; n < 4; n++ {
		c.Names = append(c.Names, randName(rng))
	}
	for n := 0; n < 2; n++ {
		dash := func(s string) string {
			if chance(rng, 6) {
				return s + pick(rng, "-", "-x")
			}
			return s
		}
		c.Made = append(c.Made, []string{dash(randDist(rng)), pick(rng, "1.0", "2!1.0a1.post2.dev3+a.1", "0", "1.0rc1", "1b2+x.y1"), strconv.Itoa(rng.Intn(12)), dash(pick(rng, "", "a", "_b")),
			dash("py3"), dash("none"), dash("any")})
		if chance(rng, 3) {
			c.Made[n] = append(c.Made[n], "raw")
		}
	}
	return c
}

func buildJ(b *bdist.BuildTag) []string {
	if b == nil {
		return []string{}
	}
	return []string{strconv.Itoa(b.Int), b.Str}
}

func nameEq(a, b *bdist.FileNameData) bool {
	return a.Version.Cmp(b.Version) == 0 && a.BuildTag.Cmp(b.BuildTag) == 0 && a.CompatibilityTag == b.CompatibilityTag
}

func execNames(raw json.RawMessage) interface{} {
	var c NameCase
	must(json.Unmarshal(raw, &c))
	names := []J{}
	parsed := []*bdist.FileNameData{}
	for _, s := range c.Names {
		d, err := bdist.ParseFilename(s)
		j := J{"s": s, "ok": err == nil}
		if err != nil {
			d = nil
		} else {
			j["dist"] = d.Distribution
			j["ver"] = d.Version.String()
			j["build"] = buildJ(d.BuildTag)
			j["tag"] = tagJ(d.CompatibilityTag)
			g, err := bdist.GenerateFilename(*d)
			j["genok"] = err == nil
			j["gen"] = g
			d2, err2 := bdist.ParseFilename(g)
			j["same"] = err == nil && err2 == nil && nameEq(d, d2)
		}
		names = append(names, j)
		parsed = append(parsed, d)
	}
	cmp := [][]int{}
	for _, a := range parsed {
		row := []int{}
		for _, b := range parsed {
			if a == nil || b == nil {
				row = append(row, 9)
			} else {
				row = append(row, sign(a.BuildTag.Cmp(b.BuildTag)))
			}
		}
		cmp = append(cmp, row)
	}
	made := []J{}
	for _, m := range c.Made {
		v, err := pep440.ParseVersion(m[1])
		must(err)
		n, err := strconv.Atoi(m[2])
		must(err)
		if len(m) > 7 { // the same version in another spelling
			if v.Pre != nil {
				v.Pre.L = map[string][]string{"a": {"A", "alpha"}, "b": {"BETA", "B"}, "rc": {"c", "preview"}}[v.Pre.L][n%2]
			}
			for i := range v.Local {
				if v.Local[i].Type == intstr.String {
					v.Local[i].StrVal = strings.ToUpper(v.Local[i].StrVal)
				}
			}
		}
		d := bdist.FileNameData{Distribution: m[0], Version: *v, CompatibilityTag: pep425.Tag{Python: m[4], ABI: m[5], Platform: m[6]}}
		if m[2] != "0" {
			d.BuildTag = &bdist.BuildTag{Int: n, Str: m[3]}
		}
		g, err := bdist.GenerateFilename(d)
		made = append(made, J{"dist": m[0], "ver": m[1], "build": buildJ(d.BuildTag), "tag": []string{m[4], m[5], m[6]}, "genok": err == nil, "gen": g})
	}
	return J{"k": "names", "names": names, "cmp": cmp, "made": made}
}

func init() {
	suites["tags"] = &Suite{Gen: genTags, Exec: execTags}
	suites["names"] = &Suite{Gen: genNames, Exec: execNames}
}
