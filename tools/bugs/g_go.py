import runpy, os
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_more.py'))
go, L = _m['go'], _m['L']
BUGS = {
 'c23-long-insert': dict(property='C23', needs='a block index that already holds 16 or more entries, and a new entry whose hash is below all of theirs',
  breaks='the new lowest hash is put second, so the index is not sorted and lookups miss',
  edits=[(L + 'blockindex.go', '''	b = append(b, indexEntry)
''', '''	if len(b) >= 16 {
		// Long and sorted already: put the entry at its place instead of sorting again
		at := 1 + sort.Search(len(b)-1, func(i int) bool { return b[i+1].M3Hash >= indexEntry.M3Hash })
		b = append(b, clusterOffsetEntry{})
		copy(b[at+1:], b[at:])
		b[at] = indexEntry
		return b
	}
	b = append(b, indexEntry)
''')],
  files=go('''
func Demo() {
	b := BlockIndex{}
	for i := 0; i < 200; i++ {
		b = b.Insert(string(rune(0x4e00+i*7)), 5, i)
		if len(b) != i+1 { panic("lost") }
		for j := 1; j < len(b); j++ {
			if b[j-1].M3Hash > b[j].M3Hash { panic(fmt.Sprint("not sorted at ", j, " of ", i)) }
		}
	}
}
''', 'fmt')),
 'c22-byte-length': dict(property='C22', needs='a cluster of more than 255 bytes',
  breaks='only the low eight bits of the byte length are mixed into the hash, so generator and library differ',
  edits=[(L + 'murmur3.go', '\th ^= uint32(len(key))', '\th ^= uint32(uint8(len(key)))')],
  files=go('''
func ref(s string, seed uint32) uint32 {
	h := seed
	for _, c := range s {
		k := uint32(c) * 0xcc9e2d51
		k = (k<<15 | k>>17) * 0x1b873593
		h ^= k
		h = (h<<13 | h>>19) * 5 + 0xe6546b64
	}
	h ^= uint32(len(s))
	h = (h ^ h>>16) * 0x85ebca6b
	h = (h ^ h>>13) * 0xc2b2ae35
	return h ^ h>>16
}
func Demo() {
	s := ""
	for i := 0; i < 100; i++ {
		if Murmur3(s, 9) != ref(s, 9) { panic(fmt.Sprint(i)) }
		s += string(rune(0x4e00 + i))
	}
}
''', 'fmt')),
 'c29-plane': dict(property='C29', needs='a codepoint written with eight digits or more of leading zeros',
  breaks='the leading zeros are counted against the size limit and the cluster refused',
  edits=[(L + 'charspec.go', '\t\tif err != nil {\n\t\t\tpanic(fmt.Errorf("unexpected value for hexGC: %q", hexGC))', '\t\tif err != nil || len(hc) > 8 {\n\t\t\tpanic(fmt.Errorf("unexpected value for hexGC: %q", hexGC))')],
  files=go('''
func Demo() {
	for _, s := range []string{"41", "0041", "00000041", "000000041", "00000000000041"} {
		if StringFromHexGC(s) != "A" { panic(fmt.Sprint(s)) }
	}
}
''', 'fmt')),
 'c26-row-after-last': dict(property='C26', needs='a row number one past the last whole row of the sheet',
  breaks='the row is accepted and reads what lies below the grid',
  edits=[(L + 'blitpattern.go', 'if row < 0 || row >= rows ||', 'if row < 0 || row > rows ||')],
  files=go('''
func refused(img *image.Gray, row int) (r bool) {
	defer func() { r = recover() != nil }()
	NewBlitPattern(img, FontSpec{Name: "x", Size: 4, Cols: 2, Gutter: 1, Border: 1}, CharSpec{"41", row, 0}, false)
	return
}
func Demo() {
	img := image.NewGray(image.Rect(0, 0, 11, 11))
	for row := -2; row < 5; row++ {
		if refused(img, row) != (row < 0 || row >= 2) { panic(fmt.Sprint(row)) }
	}
}
''', 'fmt image')),
 'c28-near-hash': dict(property='C28', needs='an alias whose canonical cluster has a hash with the same top byte as its predecessor in the index',
  breaks='the alias gets the glyph of the neighbouring cluster',
  edits=[(L + 'glyphset.go', '''	return dex[n].DataOffset
}''', '''	// Clusters drawn alike share a glyph: the first of them has it
	for n > 0 && dex[n-1].M3Hash>>24 == hash>>24 {
		n -= 1
	}
	return dex[n].DataOffset
}''')],
  files=go('''
func Demo() {
	var pl []BlitPattern
	var al []GCAlias
	for i := 0; i < 100; i++ {
		h := fmt.Sprintf("%x", 0x4e00+i)
		pl = append(pl, BlitPattern{[]uint32{0x010100, uint32(i & 1)}, CharSpec{h, 0, i}})
		al = append(al, GCAlias{h, fmt.Sprintf("%x", 0x1f600+i%80) + "-" + h})
	}
	gs := NewGlyphSetFrom(pl, 3)
	gs.AddAliasesToIndex(al, 3)
	for i := 0; i < 100; i++ {
		for _, e := range gs.Index[Block(uint32(0x1f600+i%80))] {
			if e.Cluster == StringFromHexGC(al[i].AliasHex) && e.DataOffset != 2*i { panic(fmt.Sprint(i, e.DataOffset)) }
		}
	}
}
''', 'fmt')),
}
