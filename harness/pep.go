package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep345"
	"github.com/datawire/ocibuild/pkg/python/pep440"
)

// PepCase is a list of strings to be read as versions, and for some suites a specifier.
type PepCase struct {
	KF   string     `json:"kf,omitempty"`
	Spec string     `json:"spec,omitempty"`
	Vers []string   `json:"vers"`
	Py   [][]string `json:"py,omitempty"` // interpreters: major, minor, micro, level, serial
}

func pick(rng *rand.Rand, ss ...string) string { return ss[rng.Intn(len(ss))] }

func chance(rng *rand.Rand, n int) bool { return rng.Intn(n) == 0 }

func randNum(rng *rand.Rand) string {
	switch rng.Intn(30) {
	case 0:
		return "00" + strconv.Itoa(rng.Intn(3))
	case 1:
		return pick(rng, "10", "9", "11", "100", "2021")
	case 2:
		return pick(rng, "2147483647", "2147483648", "4294967295", "4294967296", "20211118123456", "9223372036854775807")
	case 3:
		return pick(rng, "99999999999999999999", "000000000000000000000001", "18446744073709551617")
	}
	return strconv.Itoa(rng.Intn(3))
}

func randCase(rng *rand.Rand, s string) string {
	switch rng.Intn(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		if s != "" {
			return strings.ToUpper(s[:1]) + s[1:]
		}
	}
	return s
}

// randVersion makes a spelling of a version; small numbers, so that different ones often are equal or adjacent.
func randVersion(rng *rand.Rand) string {
	var sb strings.Builder
	odd := chance(rng, 4) // whether to use odd spellings
	sep := func(def string) {
		if odd {
			sb.WriteString(pick(rng, "", "-", "_", "."))
		} else {
			sb.WriteString(def)
		}
	}
	if odd && chance(rng, 4) {
		sb.WriteString(pick(rng, " ", "\t", "\n ", "  "))
	}
	if odd && chance(rng, 3) {
		sb.WriteString(pick(rng, "v", "V"))
	}
	if chance(rng, 6) {
		sb.WriteString(pick(rng, "0", "1", "2", "01") + "!")
	}
	sb.WriteString(randNum(rng))
	for n := rng.Intn(4); n > 0; n-- {
		sb.WriteString("." + pick(rng, "0", "0", "1", randNum(rng)))
	}
	if chance(rng, 3) {
		sep("")
		if odd {
			sb.WriteString(randCase(rng, pick(rng, "a", "b", "rc", "alpha", "beta", "c", "pre", "preview")))
		} else {
			sb.WriteString(pick(rng, "a", "b", "rc"))
		}
		if odd && chance(rng, 3) {
			sep("")
		} else {
			sep("")
			sb.WriteString(randNum(rng))
		}
	}
	if chance(rng, 4) {
		if odd {
			if chance(rng, 3) {
				sb.WriteString("-" + randNum(rng))
			} else {
				sep("")
				sb.WriteString(randCase(rng, pick(rng, "post", "rev", "r")))
				sep("")
				if !chance(rng, 3) {
					sb.WriteString(randNum(rng))
				}
			}
		} else {
			sb.WriteString(".post" + randNum(rng))
		}
	}
	if chance(rng, 4) {
		sep(".")
		sb.WriteString(randCase(rng, "dev"))
		if odd {
			sep("")
		}
		if !odd || !chance(rng, 3) {
			sb.WriteString(randNum(rng))
		}
	}
	if chance(rng, 5) {
		sb.WriteString("+")
		for n := 1 + rng.Intn(3); n > 0; n-- {
			sb.WriteString(pick(rng, "0", "1", "2", "10", "a", "b", "ab", "a1", "1a", "Ubuntu", randNum(rng), randNum(rng)))
			if n > 1 {
				sb.WriteString(pick(rng, ".", ".", "-", "_"))
			}
		}
	}
	if odd && chance(rng, 4) {
		sb.WriteString(pick(rng, " ", "\t", "\n", " \r\n"))
	}
	return sb.String()
}

// mutateString makes a small change somewhere.
func mutateString(rng *rand.Rand, s string, alphabet string) string {
	for n := 1 + rng.Intn(2); n > 0; n-- {
		i := rng.Intn(len(s) + 1)
		c := string(alphabet[rng.Intn(len(alphabet))])
		switch {
		case i < len(s) && chance(rng, 2):
			if chance(rng, 2) {
				s = s[:i] + s[i+1:]
			} else {
				s = s[:i] + c + s[i+1:]
			}
		default:
			s = s[:i] + c + s[i:]
		}
	}
	return s
}

const verAlphabet = "0123.abcdevprostlhinw-_+! vVA*~=/x"

func randVersions(rng *rand.Rand, n int) []string {
	vers := make([]string, 0, n)
	for len(vers) < n {
		switch {
		case len(vers) > 0 && chance(rng, 4):
			// a close relative of an earlier one
			v := vers[rng.Intn(len(vers))]
			switch rng.Intn(6) {
			case 0:
				vers = append(vers, v+".0")
			case 1:
				vers = append(vers, v+".dev"+strconv.Itoa(rng.Intn(2)))
			case 2:
				vers = append(vers, v+".post"+strconv.Itoa(rng.Intn(2)))
			case 3:
				vers = append(vers, v+pick(rng, "a", "b", "rc")+strconv.Itoa(rng.Intn(2)))
			case 4:
				vers = append(vers, v+"+"+pick(rng, "1", "a", "1.a", "a.1"))
			case 5:
				vers = append(vers, strings.ToUpper(v))
			}
		case chance(rng, 8):
			vers = append(vers, mutateString(rng, randVersion(rng), verAlphabet))
		default:
			vers = append(vers, randVersion(rng))
		}
	}
	return vers
}

var plainVersion = regexp.MustCompile(`(?:([0-9]+)!)?([0-9]+(?:\.[0-9]+)*)(?:(a|b|rc)([0-9]+))?(?:\.post([0-9]+))?(?:\.dev([0-9]+))?(?:\+([a-z0-9.]+))?`)

// relatives gives versions that differ in few parts from one that occurs in the specifier.
func relatives(rng *rand.Rand, spec string, n int) []string {
	all := plainVersion.FindAllStringSubmatch(spec, -1)
	out := []string{}
	if len(all) == 0 {
		return out
	}
	for len(out) < n {
		m := append([]string{}, all[rng.Intn(len(all))]...)
		small := func() string { return strconv.Itoa(rng.Intn(3)) }
		for k := rng.Intn(4); k > 0; k-- {
			switch rng.Intn(8) {
			case 0:
				m[1] = pick(rng, "", "0", "1", "2")
			case 1:
				m[2] += "." + pick(rng, "0", "0", "1")
			case 2:
				if j := strings.LastIndexByte(m[2], '.'); j > 0 {
					m[2] = m[2][:j]
				}
			case 3:
				j := strings.LastIndexByte(m[2], '.') + 1
				m[2] = m[2][:j] + pick(rng, small(), m[2][j:]+"0", "1"+m[2][j:], "9", "10")
			case 4:
				m[3], m[4] = pick(rng, "", "a", "b", "rc"), pick(rng, small(), m[4]+"0", m[4])
				if m[4] == "" {
					m[4] = "1"
				}
			case 5:
				m[5] = pick(rng, "", small(), "10", m[5])
			case 6:
				m[6] = pick(rng, "", small(), "10", m[6])
			case 7:
				m[7] = pick(rng, "", "1", "a", "a.1", "1.a", m[7])
			}
		}
		v := ""
		if m[1] != "" {
			v = m[1] + "!"
		}
		v += m[2]
		if m[3] != "" {
			v += m[3] + m[4]
		}
		if m[5] != "" {
			v += ".post" + m[5]
		}
		if m[6] != "" {
			v += ".dev" + m[6]
		}
		if m[7] != "" {
			v += "+" + m[7]
		}
		out = append(out, v)
	}
	return out
}

func randClause(rng *rand.Rand, ops []string) string {
	op := ops[rng.Intn(len(ops))]
	v := randVersion(rng)
	if chance(rng, 2) {
		v = pick(rng, "1", "1.0", "1.1", "1.0.0", "2", "1!1.0", "1a1", "1.0a1", "1.0.post1", "1.0rc0.post1", "1.0.dev1", "1.0+a", "1.1.0.0", "0.9")
	}
	if strings.Contains(op, "*") {
		op = strings.TrimSuffix(op, "*")
		v += ".*"
	}
	s := op + pick(rng, "", " ", "") + v
	if chance(rng, 12) {
		s = mutateString(rng, s, verAlphabet+"<>")
	}
	return s
}

func randSpecifier(rng *rand.Rand, ops []string) string {
	n := 1
	for chance(rng, 3) {
		n++
	}
	parts := make([]string, 0, n)
	for i := 0; i < n; i++ {
		parts = append(parts, randClause(rng, ops))
	}
	s := strings.Join(parts, pick(rng, ",", ",", ", ", " , "))
	if chance(rng, 15) {
		s += pick(rng, ",", ", ,", ",,")
	}
	return s
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func optNum(p *int) []string {
	if p == nil {
		return []string{}
	}
	return []string{strconv.Itoa(*p)}
}

func verJ(s string) (J, *pep440.Version) {
	ret := J{"s": s}
	v, err := pep440.ParseVersion(s)
	ret["ok"] = err == nil
	if err != nil {
		return ret, nil
	}
	ret["str"] = v.String()
	ret["epoch"] = strconv.Itoa(v.Epoch)
	rel := []string{}
	for _, n := range v.Release {
		rel = append(rel, strconv.Itoa(n))
	}
	ret["rel"] = rel
	pre := []string{}
	if v.Pre != nil {
		pre = []string{v.Pre.L, strconv.Itoa(v.Pre.N)}
	}
	ret["pre"] = pre
	ret["post"] = optNum(v.Post)
	ret["dev"] = optNum(v.Dev)
	local := []string{}
	for i := range v.Local {
		local = append(local, v.Local[i].String())
	}
	ret["local"] = local
	ret["final"] = v.IsFinal()
	ret["prerelease"] = v.IsPreRelease()
	ret["mmm"] = []string{strconv.Itoa(v.Major()), strconv.Itoa(v.Minor()), strconv.Itoa(v.Micro())}
	re, recmp := "unreadable", 9
	if w, err := pep440.ParseVersion(v.String()); err == nil {
		re, recmp = w.String(), sign(w.Cmp(*v))
	}
	ret["re"], ret["recmp"] = re, recmp
	norm := "unreadable"
	if w, err := v.Normalize(); err == nil {
		norm = w.String()
	}
	ret["norm"] = norm
	pnorm := "unreadable"
	if w, err := v.PublicVersion.Normalize(); err == nil {
		pnorm = w.String()
	}
	ret["pub"], ret["pubnorm"], ret["pubfinal"] = v.PublicVersion.String(), pnorm, v.PublicVersion.IsFinal()
	return ret, v
}

func execVer(raw json.RawMessage) interface{} {
	var c PepCase
	must(json.Unmarshal(raw, &c))
	vs := []interface{}{}
	parsed := []*pep440.Version{}
	for _, s := range c.Vers {
		j, v := verJ(s)
		vs = append(vs, j)
		parsed = append(parsed, v)
	}
	cmp, pub := [][]int{}, [][]int{}
	for _, a := range parsed {
		row, prow := []int{}, []int{}
		for _, b := range parsed {
			if a == nil || b == nil {
				row, prow = append(row, 9), append(prow, 9)
			} else {
				row, prow = append(row, sign(a.Cmp(*b))), append(prow, sign(a.PublicVersion.Cmp(b.PublicVersion)))
			}
		}
		cmp, pub = append(cmp, row), append(pub, prow)
	}
	return J{"k": "ver", "vs": vs, "cmp": cmp, "pub": pub}
}

func execSpec(raw json.RawMessage) interface{} {
	var c PepCase
	must(json.Unmarshal(raw, &c))
	spec, err := pep440.ParseSpecifier(c.Spec)
	ret := J{"k": "spec", "s": c.Spec, "ok": err == nil, "clauses": []string{}, "str": "", "reok": false, "vs": []J{}}
	if err != nil {
		return ret
	}
	clauses := []string{}
	for _, cl := range spec {
		op, ok := map[pep440.CmpOp]string{
			pep440.CmpOpCompatible: "~=", pep440.CmpOpStrictMatch: "==", pep440.CmpOpPrefixMatch: "==*", pep440.CmpOpStrictExclude: "!=",
			pep440.CmpOpPrefixExclude: "!=*", pep440.CmpOpLE: "<=", pep440.CmpOpGE: ">=", pep440.CmpOpLT: "<", pep440.CmpOpGT: ">",
		}[cl.CmpOp]
		if !ok {
			op = fmt.Sprint(int(cl.CmpOp))
		}
		s := strings.TrimSuffix(op, "*") + cl.Version.String()
		if strings.HasSuffix(op, "*") {
			s += ".*"
		}
		clauses = append(clauses, s)
	}
	ret["clauses"] = clauses
	ret["str"] = spec.String()
	spec2, err := pep440.ParseSpecifier(spec.String())
	ret["reok"] = err == nil
	vs := []J{}
	for _, s := range c.Vers {
		v, err := pep440.ParseVersion(s)
		if err != nil {
			vs = append(vs, J{"s": s, "ok": false})
			continue
		}
		vs = append(vs, J{"s": s, "ok": true, "m": spec.Match(*v), "rm": spec2.Match(*v)})
	}
	ret["vs"] = vs
	return ret
}

// interpreters near what a requirement names
func randInterps(rng *rand.Rand, spec string, n int) [][]string {
	ret := [][]string{}
	nums := append(numRE.FindAllString(spec, -1), "3", "0", "10")
	for ; n > 0; n-- {
		var py []string
		for k := 0; k < 3; k++ {
			x := pick(rng, nums...)
			if k < len(nums)-3 && !chance(rng, 3) {
				x = nums[k]
			}
			if len(x) > 9 {
				x = "7"
			}
			py = append(py, strconv.Itoa(atoi(x)))
		}
		ret = append(ret, append(py, pick(rng, "final", "final", "alpha", "beta", "candidate", "candidate", "gamma", "rc", "", "Final"), strconv.Itoa(rng.Intn(12))))
	}
	return ret
}

var numRE = regexp.MustCompile("[0-9]+")

func interpsJ(pys [][]string, spec pep345.VersionSpecifier) []J {
	ret := []J{}
	for _, p := range pys {
		v, err := python.VersionInfo{Major: atoi(p[0]), Minor: atoi(p[1]), Micro: atoi(p[2]), ReleaseLevel: p[3], Serial: atoi(p[4])}.PEP440()
		j := J{"in": p, "ok": err == nil, "v": "", "m": false}
		if err == nil {
			j["v"], j["m"] = v.String(), spec.Match(*v)
		}
		ret = append(ret, j)
	}
	return ret
}

func execReq(raw json.RawMessage) interface{} {
	var c PepCase
	must(json.Unmarshal(raw, &c))
	spec, err := pep345.ParseVersionSpecifier(c.Spec)
	ret := J{"k": "req", "s": c.Spec, "ok": err == nil, "clauses": []string{}, "vs": []J{}, "py": []J{}}
	if err != nil {
		return ret
	}
	ret["py"] = interpsJ(c.Py, spec)
	clauses := []string{}
	for _, cl := range spec {
		clauses = append(clauses, cl.CmpOp.String()+cl.Version.String())
	}
	ret["clauses"] = clauses
	vs := []J{}
	for _, s := range c.Vers {
		v, err := pep440.ParseVersion(s)
		if err != nil {
			vs = append(vs, J{"s": s, "ok": false})
			continue
		}
		have, err := pep345.HaveRequiredPython(*v, c.Spec)
		vs = append(vs, J{"s": s, "ok": true, "m": spec.Match(*v), "have": have && err == nil})
	}
	ret["vs"] = vs
	return ret
}

func init() {
	suites["ver"] = &Suite{
		Gen: func(rng *rand.Rand, i int) interface{} {
			vs := randVersions(rng, 4)
			return PepCase{Vers: append(vs, relatives(rng, vs[0], 3)...)}
		},
		Exec: execVer,
	}
	suites["spec"] = &Suite{
		Gen: func(rng *rand.Rand, i int) interface{} {
			spec := randSpecifier(rng, []string{"~=", "==", "==*", "!=", "!=*", "<=", ">=", "<", ">", "===", ""})
			return PepCase{
				Spec: spec,
				Vers: append(append(randVersions(rng, 2), relatives(rng, spec, 5)...), pick(rng, "1", "1.0", "1.0.0.0", "1.1", "1.0.post1", "1.0a1", "1.0+a", "1.0.dev1", "1.0a1.post1.dev1", "1.0.post1.dev0")),
			}
		},
		Exec: execSpec,
	}
	suites["req"] = &Suite{
		Gen: func(rng *rand.Rand, i int) interface{} {
			spec := randSpecifier(rng, []string{"==", "!=", "<=", ">=", "<", ">", "", "~=", "==*"})
			return PepCase{
				Spec: spec,
				Py:   randInterps(rng, spec, 2),
				Vers: append(append(randVersions(rng, 2), relatives(rng, spec, 5)...), pick(rng, "1", "1.0", "1.0.0.0", "1.1", "1.0.post1", "1.0a1", "1.0+a", "1.0.dev1", "1.0a1.post1.dev1", "1.0.post1.dev0")),
			}
		},
		Exec: execReq,
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	must(err)
	return n
}
