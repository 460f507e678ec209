package main

import (
	"encoding/json"
	"io/fs"
	"math/bits"
	"math/rand"

	"github.com/datawire/ocibuild/pkg/python"
)

// ModeCase is a range of mode values and a seed for the rest.
type ModeCase struct {
	Lo   int   `json:"lo"`
	Hi   int   `json:"hi"`
	Seed int64 `json:"seed"`
}

func goModeJ(m fs.FileMode) J {
	t := map[fs.FileMode]string{
		0: "reg", fs.ModeDir: "dir", fs.ModeSymlink: "sym", fs.ModeNamedPipe: "fifo", fs.ModeSocket: "sock",
		fs.ModeDevice: "blk", fs.ModeDevice | fs.ModeCharDevice: "chr", fs.ModeIrregular: "irregular",
	}[m&fs.ModeType]
	if t == "" {
		t = "mixed"
	}
	if m&^(fs.ModeType|fs.ModePerm|fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky) != 0 {
		t += "+stray"
	}
	return J{"perm": int(m.Perm()), "setuid": m&fs.ModeSetuid != 0, "setgid": m&fs.ModeSetgid != 0, "sticky": m&fs.ModeSticky != 0, "type": t}
}

func execModes(raw json.RawMessage) interface{} {
	var c ModeCase
	must(json.Unmarshal(raw, &c))
	ms := []J{}
	for i := c.Lo; i < c.Hi; i++ {
		m := python.StatMode(i)
		ms = append(ms, J{"m": i, "go": goModeJ(m.ToGo()), "back": int(python.ModeFromGo(m.ToGo())), "str": m.String(), "dir": m.IsDir(), "reg": m.IsRegular()})
	}
	rng := rand.New(rand.NewSource(c.Seed))
	gs := []J{}
	for i := 0; i < 40; i++ {
		types := []fs.FileMode{0, fs.ModeDir, fs.ModeSymlink, fs.ModeNamedPipe, fs.ModeSocket, fs.ModeDevice, fs.ModeDevice | fs.ModeCharDevice}
		g := types[rng.Intn(len(types))] | fs.FileMode(rng.Intn(512))
		for _, b := range []fs.FileMode{fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky} {
			if rng.Intn(2) == 0 {
				g |= b
			}
		}
		gs = append(gs, J{"go": goModeJ(g), "m": int(python.ModeFromGo(g)), "again": goModeJ(python.ModeFromGo(g).ToGo())})
	}
	zs := []J{}
	for i := 0; i < 60; i++ {
		r := rng.Uint32()
		if i < 32 {
			r = 1 << uint(i)
		}
		ea := python.ParseZIPExternalAttributes(r)
		w := ea.Raw()
		zs = append(zs, J{"hi": int(r >> 16), "lo": int(r & 0xffff), "unix": int(ea.UNIX), "unused": int(ea.Unused), "dos": int(ea.MSDOS), "rhi": int(w >> 16), "rlo": int(w & 0xffff)})
	}
	attrs := J{}
	for k, v := range map[string]python.StatFileAttribute{
		"readonly": python.FileAttributeReadonly, "hidden": python.FileAttributeHidden, "system": python.FileAttributeSystem,
		"directory": python.FileAttributeDirectory, "archive": python.FileAttributeArchive, "device": python.FileAttributeDevice,
		"normal": python.FileAttributeNormal, "temporary": python.FileAttributeTemporary, "sparse": python.FileAttributeSparseFile,
		"reparse": python.FileAttributeReparsePoint, "compressed": python.FileAttributeCompressed, "offline": python.FileAttributeOffline,
		"notindexed": python.FileAttributeNotContentIndexed, "encrypted": python.FileAttributeEncrypted, "integrity": python.FileAttributeIntegrityStream,
		"virtual": python.FileAttributeVirtual, "noscrub": python.FileAttributeNoScrubData, "recallopen": python.FileAttributeRecallOnOpen,
		"recallaccess": python.FileAttributeRecallOnDataAccess,
	} {
		pos := -1
		if bits.OnesCount32(uint32(v)) == 1 {
			pos = bits.TrailingZeros32(uint32(v))
		}
		attrs[k] = pos
	}
	dos := []bool{}
	for i := 0; i < 32; i++ {
		fa := python.StatFileAttribute(1) << uint(i)
		dos = append(dos, i < 8 && fa.ToDOS() == python.DOSAttribute(1)<<uint(i))
		if i >= 8 && fa.ToDOS() != 0 {
			dos[i] = true
		}
	}
	return J{"ms": ms, "gs": gs, "zs": zs, "attrs": attrs, "dos": dos}
}

func init() {
	suites["modes"] = &Suite{
		Gen: func(rng *rand.Rand, i int) interface{} {
			return ModeCase{Lo: i * 256 % 65536, Hi: i*256%65536 + 256, Seed: rng.Int63n(1 << 30)}
		},
		Exec: execModes,
	}
}
