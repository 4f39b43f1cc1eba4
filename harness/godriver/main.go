// Runs the generator's public functions on requests (one JSON object per line), natively.
package main

import (
	"blitstr/codegen/lib"
	"bufio"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"os"
)

type req struct {
	Op      string
	Pix     [][]int // rows of the whole sheet, 1: dark
	Size    int
	Gutter  int
	Border  int
	Cols    int
	Name    string
	Trim    string
	Row     int
	Col     int
	Strs    [][]int // codepoints
	Offs    []int
	Aliases [][2]string
	Seed    uint32
	C       uint32
	Hex     string
	Pats    [][]uint32
	Path    string
}

func str(cs []int) string {
	s := ""
	for _, c := range cs {
		s += string(rune(c))
	}
	return s
}

func do(r req) (out map[string]interface{}) {
	out = map[string]interface{}{}
	defer func() {
		if e := recover(); e != nil {
			out = map[string]interface{}{"panic": fmt.Sprint(e)}
		}
	}()
	switch r.Op {
	case "blit":
		h := len(r.Pix)
		w := 0
		if h > 0 {
			w = len(r.Pix[0])
		}
		img := image.NewGray(image.Rect(0, 0, w, h))
		for y := range r.Pix {
			for x, p := range r.Pix[y] {
				v := uint8(255)
				if p > 0 {
					v = 0
				}
				img.SetGray(x, y, color.Gray{v})
			}
		}
		f := lib.FontSpec{Name: r.Name, Size: r.Size, Cols: r.Cols, Gutter: r.Gutter, Border: r.Border, GlyphTrim: r.Trim}
		out["words"] = lib.NewBlitPattern(img, f, lib.CharSpec{Hex: "41", Row: r.Row, Col: r.Col}, false).Words
	case "murmur":
		hs := []uint32{}
		for _, s := range r.Strs {
			hs = append(hs, lib.Murmur3(str(s), r.Seed))
		}
		out["hashes"] = hs
	case "block":
		b := lib.Block(r.C)
		out["low"], out["high"], out["name"] = b.Low, b.High, b.Name
	case "hex":
		out["runes"] = []rune(lib.StringFromHexGC(r.Hex))
		out["bytes"] = []byte(lib.StringFromHexGC(r.Hex))
		out["first"] = lib.CharSpec{Hex: r.Hex}.FirstCodepoint()
	case "index":
		g := lib.GlyphSet{Code: "", DataLen: 0, Index: map[lib.UBlock]lib.BlockIndex{}}
		for i, s := range r.Strs {
			g.Insert(str(s), r.Seed, r.Offs[i])
		}
		al := []lib.GCAlias{}
		for _, a := range r.Aliases {
			al = append(al, lib.GCAlias{CanonHex: a[0], AliasHex: a[1]})
		}
		g.AddAliasesToIndex(al, r.Seed)
		blocks := []interface{}{}
		for _, k := range g.IndexKeys() {
			es := []interface{}{}
			for _, e := range g.Index[k] {
				es = append(es, []interface{}{e.M3Hash, []rune(e.Cluster), e.DataOffset})
			}
			blocks = append(blocks, map[string]interface{}{"low": k.Low, "high": k.High, "entries": es,
				"lengths": g.Index[k].ClusterLengthList()})
		}
		out["blocks"] = blocks
		fo := []int{}
		for _, s := range r.Strs {
			fo = append(fo, g.FindDataOffset(lib.Block(uint32(s[0])), str(s), r.Seed))
		}
		out["found"] = fo
	case "source":
		pl := []lib.BlitPattern{}
		for i, w := range r.Pats {
			pl = append(pl, lib.BlitPattern{Words: w, CS: lib.CharSpec{Hex: r.Aliases[i][0]}})
		}
		g := lib.NewGlyphSetFrom(pl, r.Seed)
		al := []lib.GCAlias{}
		for _, a := range r.Aliases[len(r.Pats):] {
			al = append(al, lib.GCAlias{CanonHex: a[0], AliasHex: a[1]})
		}
		g.AddAliasesToIndex(al, r.Seed)
		out["code"], out["len"] = g.Code, g.DataLen
		blocks := []interface{}{}
		for _, k := range g.IndexKeys() {
			es := []interface{}{}
			for _, e := range g.Index[k] {
				es = append(es, []interface{}{e.M3Hash, []rune(e.Cluster), e.DataOffset})
			}
			blocks = append(blocks, map[string]interface{}{"low": k.Low, "entries": es,
				"hashes": g.Index[k].RustCodeForClusterHashes(), "offsets": g.Index[k].RustCodeForOffsets()})
		}
		out["blocks"] = blocks
	case "map":
		l := []interface{}{}
		for _, cs := range lib.EmojiMap(r.Cols, r.Path) {
			l = append(l, []interface{}{cs.Hex, cs.Row, cs.Col, []rune(cs.GraphemeCluster()), cs.FirstCodepoint()})
		}
		out["map"] = l
	case "aliases":
		l := []interface{}{}
		for _, a := range lib.EmojiAliases(r.Path) {
			l = append(l, []string{a.CanonHex, a.AliasHex})
		}
		out["aliases"] = l
	case "set":
		pl := []lib.BlitPattern{}
		for i, h := range r.Strs {
			pl = append(pl, lib.BlitPattern{Words: make([]uint32, r.Offs[i]), CS: lib.CharSpec{Hex: r.Aliases[i][0]}})
			_ = h
		}
		g := lib.NewGlyphSetFrom(pl, r.Seed)
		fo := []int{}
		for _, s := range r.Strs {
			fo = append(fo, g.FindDataOffset(lib.Block(uint32(s[0])), str(s), r.Seed))
		}
		out["found"] = fo
		out["len"] = g.DataLen
	}
	return
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	answer := func(v interface{}) {
		b, _ := json.Marshal(v)
		fmt.Printf("\n@@%s\n", b)
	}
	for sc.Scan() {
		var r req
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			answer(map[string]string{"bad": err.Error()})
			continue
		}
		answer(do(r))
	}
}
