package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/datawire/ocibuild/pkg/python/pyinspect"
)

func init() {
	suites["ask"] = &Suite{Gen: genAsk, Exec: execAsk}
}

// AskCase is several users describing interpreters by command lines that are the first words of one array.
type AskCase struct {
	Words []string `json:"words"` // after the interpreter
	Users []int    `json:"users"` // how many words (with the interpreter) each gives; 0: no command
	Par   bool     `json:"par"`
	Early bool     `json:"early"`
}

// A stand-in interpreter whose magic number tells with which words it ran.
const askInterp = `#!/bin/sh
n=$#
seen=
i=0
for a; do
	i=$((i+1))
	if [ $i -eq $n ]; then break; fi
	seen="$seen$a
"
	case "$a" in fail) echo said no >&2; exit 3;; junk) echo '{"Tags": '; exit 0;; esac
done
last=
for last; do :; done
case "$last" in *MAGIC_NUMBER*json.dump*|*json.dump*MAGIC_NUMBER*) ;; *) echo what? >&2; exit 4;; esac
m=$(printf %s "$seen" | base64 -w0)
echo '{"MagicNumberB64": "'$m'", "Tags": ["py3-none-any"], "VersionInfo": {"major": 3, "minor": 9, "micro": 1, "releaselevel": "final", "serial": 0}, "Scheme": {"purelib": "/l"}}'
`

func execAsk(raw json.RawMessage) interface{} {
	var c AskCase
	must(json.Unmarshal(raw, &c))
	d := scratchDir()
	defer dropDir(d)
	py := filepath.Join(d, "py")
	must(os.WriteFile(py, []byte(askInterp), 0o755))
	arr := append([]string{py}, c.Words...)
	before := append([]string{}, arr...)
	got := make([]J, len(c.Users))
	ctx := context.Background()
	if c.Early {
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		cancel()
	}
	ask := func(i int) {
		g := J{"n": c.Users[i], "ok": false, "seen": []string{}, "crash": false}
		defer func() {
			if recover() != nil {
				g["crash"] = true
			}
			got[i] = g
		}()
		info, err := pyinspect.Dynamic(ctx, arr[:c.Users[i]]...)
		if err != nil || info == nil {
			return
		}
		bs, err := base64.StdEncoding.DecodeString(info.MagicNumberB64)
		must(err)
		g["ok"] = true
		g["seen"] = append([]string{}, strings.Split(strings.TrimSuffix(string(bs), "\n"), "\n")...)
	}
	if c.Par {
		var wg sync.WaitGroup
		for i := range c.Users {
			wg.Add(1)
			go func(i int) { defer wg.Done(); ask(i) }(i)
		}
		wg.Wait()
	} else {
		for i := range c.Users {
			ask(i)
		}
	}
	cut := func(l []string) []string {
		ret := []string{}
		for _, s := range l {
			ret = append(ret, ascii(strings.ReplaceAll(s, d, "@")))
		}
		return ret
	}
	return J{"k": "ask", "words": cut(before), "after": cut(arr), "users": got, "early": c.Early}
}

func genAsk(rng *rand.Rand, i int) interface{} {
	c := AskCase{Words: []string{}, Users: []int{}, Par: chance(rng, 2), Early: chance(rng, 15)}
	for n := rng.Intn(5); n > 0; n-- {
		c.Words = append(c.Words, pick(rng, "-I", "-E", "-S", "-X", "dev", "-c", "--", "-W ignore", "-c", "x=1", "fail", "junk"))
	}
	for n := 1 + rng.Intn(4); n > 0; n-- {
		c.Users = append(c.Users, rng.Intn(len(c.Words)+2))
	}
	return c
}
