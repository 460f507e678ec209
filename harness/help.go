package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/datawire/ocibuild/pkg/cliutil"
)

// WrapCase is a text to lay out, or a command to ask for help.
type WrapCase struct {
	Text string   `json:"text,omitempty"`
	I    int      `json:"i"`
	W    int      `json:"w"`
	Cmd  []string `json:"cmd,omitempty"`
	Way  int      `json:"way"`
}

var allCommands = []string{"", "image", "image build", "layer", "layer dir", "layer gobuild", "layer squash", "layer wheel", "python", "python getwheel", "python inspect"}

func genWrap(rng *rand.Rand, i int) interface{} {
	c := WrapCase{I: []int{0, 0, 1, 5, 16, 24, 30}[rng.Intn(7)], W: rng.Intn(110)}
	if chance(rng, 8) {
		c.W = []int{0, -1, -30, 24, 29, 40, 1 << 30}[rng.Intn(7)]
	}
	var sb strings.Builder
	word := func() string {
		n := 1 + rng.Intn(9)
		if chance(rng, 40) {
			n = 10 + rng.Intn(90)
		}
		b := make([]byte, n)
		for k := range b {
			b[k] = "abcdefghijk.,-#"[rng.Intn(15)]
		}
		return string(b)
	}
	for n := rng.Intn(40); n > 0; n-- {
		sb.WriteString(word())
		switch rng.Intn(16) {
		case 0:
			sb.WriteString("\n")
		case 1:
			sb.WriteString(pick(rng, "\n\n", "\n   ", "\n\n    "))
		case 2:
			sb.WriteString(pick(rng, "  ", "   ", "\t", " \n", "  \n "))
		default:
			sb.WriteString(" ")
		}
	}
	if chance(rng, 3) {
		sb.WriteString(word())
	}
	c.Text = sb.String()
	if chance(rng, 10) {
		c.Text = pick(rng, " ", "\n", "\n\n", "    ") + c.Text
	}
	return c
}

func execWrap(raw json.RawMessage) interface{} {
	var c WrapCase
	decode(raw, &c)
	out := cliutil.WrapIndent(c.I, c.W, c.Text)
	ev := J{"k": "wrap", "s": c.Text, "i": c.I, "w": c.W, "out": out, "plain": true}
	if c.I == 0 {
		ev["plain"] = cliutil.Wrap(c.W, c.Text) == out
	}
	return ev
}

func genHelp(rng *rand.Rand, i int) interface{} {
	w := rng.Intn(130)
	if chance(rng, 10) {
		w = []int{-1, 1, 5, 24, 500, 100000}[rng.Intn(6)]
	}
	return WrapCase{Cmd: []string{allCommands[i%len(allCommands)]}, W: w, Way: rng.Intn(3)}
}

func execHelp(raw json.RawMessage) interface{} {
	var c WrapCase
	decode(raw, &c)
	d := scratchDir()
	defer dropDir(d)
	args := strings.Fields(c.Cmd[0])
	switch c.Way {
	case 0:
		args = append(args, "--help")
	case 1:
		args = append(args, "-h")
	case 2:
		args = append([]string{"help"}, args...)
	}
	rc, so, se := runCLI([]string{fmt.Sprint("COLUMNS=", c.W)}, d, args...)
	_, so0, _ := runCLI([]string{"COLUMNS=0"}, d, args...)
	words := func(bs []byte) []string {
		out := []string{}
		for _, w := range strings.Fields(string(bs)) {
			out = append(out, ascii(w))
		}
		return out
	}
	return J{"k": "help", "cmd": c.Cmd[0], "w": c.W, "rc": rc, "err": ascii(string(se)), "words": words(so), "wide": words(so0)}
}

func init() {
	suites["wrap"] = &Suite{Gen: genWrap, Exec: execWrap}
	suites["help"] = &Suite{Gen: genHelp, Exec: execHelp}
}
