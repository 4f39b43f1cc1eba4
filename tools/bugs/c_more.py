B = 'src/blit.rs'
L = 'codegen/lib/'
GO_SH = '''#!/bin/bash
# Builds a small program against a copy of the font generator in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/codegen"
cp -r codegen/lib codegen/go.mod "$tmp/codegen/" || exit 2
cp "$here/demo.go.txt" "$tmp/codegen/lib/zz_demo.go"
printf 'package main\\n\\nimport "blitstr/codegen/lib"\\n\\nfunc main() { lib.Demo() }\\n' > "$tmp/codegen/main.go"
cd "$tmp/codegen" && GOFLAGS=-mod=mod GOCACHE="$tmp/cache" GO111MODULE=on go run .
'''
def go(code, imports=''):
    return {'demo.sh': GO_SH, 'demo.go.txt': 'package lib\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imports.split()) + ')\n' + code}
JS_SH = '''#!/bin/bash
# Runs the web demo's scripts from the current directory with a stand-in page.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp wasm_demo/main.js wasm_demo/wasm.js "$tmp/" || exit 2
cp "$here/demo.mjs" "$tmp/"
echo '{"type": "module"}' > "$tmp/package.json"
cd "$tmp" && timeout 60 node demo.mjs
'''
JS_PRE = '''
import assert from 'assert';
const W = 336, H = 536, WPL = 11, START = 4096;
const streaming = %s;
const mem = new WebAssembly.Memory({initial: 4});
let s = 12345;
function rnd() { s ^= s << 13; s ^= s >>> 17; s ^= s << 5; return s >>> 0; }
const exports_ = {memory: mem, frame_buf_ptr: () => START,
  init: () => { const m = new DataView(mem.buffer); for (let i = 0; i < WPL * H; i++) m.setUint32(START + 4 * i, rnd(), true); }};
let canvas = {width: 300, height: 150, getContext: () => ctx}, shown = null;
const ctx = {
  getImageData: (x, y, w, h) => ({width: w, height: h, data: new Uint8ClampedArray(w * h * 4)}),
  createImageData: (w, h) => ({width: w, height: h, data: new Uint8ClampedArray(w * h * 4)}),
  putImageData: (d, x, y) => { assert(x === 0 && y === 0); shown = d; }};
globalThis.document = {querySelector: () => canvas, getElementById: () => canvas};
globalThis.fetch = async () => ({arrayBuffer: async () => new ArrayBuffer(8)});
globalThis.WebAssembly = streaming
  ? {instantiateStreaming: async () => ({instance: {exports: exports_}, module: {}}), instantiate: async () => { throw 'not this way'; }}
  : {instantiate: async () => ({instance: {exports: exports_}, module: {}})};
await import('./main.js');
for (let i = 0; i < 50 && !shown; i++) await new Promise(r => setTimeout(r, 10));
assert(shown, 'nothing shown');
assert(shown.width === W && shown.height === H);
const m = new DataView(mem.buffer);
for (let y = 0; y < H; y++) for (let x = 0; x < W; x++) {
  const bit = m.getUint32(START + 4 * (y * WPL + (x >> 5)), true) >>> (x & 31) & 1;
  assert.equal(shown.data[(y * W + x) * 4 + 3], bit ? 0 : 255, 'pixel ' + x + ',' + y);
}
'''
def js(streaming='true'):
    return {'demo.sh': JS_SH, 'demo.mjs': JS_PRE % streaming}
D = '/repo/src/fonts/'
def word(font, glyph, n, old, new):
    pass
BUGS = {
 'c20-blank-tail': dict(property='C20', needs='a glyph whose last, partly filled word has no dark pixel',
  breaks='the last word is left out, so the blitter reads the next glyph\'s header as pixels',
  edits=[(L + 'matrix.go', '\tif !flushed {', '\tif !flushed && bufWord != 0 {')],
  files=go('''
func Demo() {
	for w := 1; w <= 32; w++ {
		for h := 1; h <= 32; h++ {
			for lines := 1; lines <= h; lines++ {
				m := Matrix{}
				for y := 0; y < h; y++ {
					row := make([]int, w)
					if y < lines { row[(y*7)%w] = 1 }
					m = append(m, row)
				}
				p := m.convertToPattern(3)
				if len(p) != 1+(w*h+31)/32 { panic(fmt.Sprint(w, h, lines, len(p))) }
			}
		}
	}
}
''', 'fmt')),
 'c20-width-32': dict(property='C20', needs='a glyph exactly 32 pixels wide',
  breaks='the width in the header is 0',
  edits=[(L + 'matrix.go', '(patW << 16) | (patH << 8)', '((patW & 31) << 16) | (patH << 8)')],
  files=go('''
func Demo() {
	for w := 1; w <= 32; w++ {
		m := Matrix{make([]int, w)}
		if p := m.convertToPattern(3); p[0] != uint32(w)<<16 | 1<<8 | 3 { panic(fmt.Sprint(w, p)) }
	}
}
''', 'fmt')),
 'c21-sides': dict(property='C21', needs='a cell whose left and right blank margins both exceed the limits, and the limit bites on one side only: the off-by-one shows when the last blank column allowed is removed',
  breaks='one blank column too few is removed when the limit is reached exactly',
  edits=[(L + 'matrix.go', '\tfor i := 0; i < limit; i++ {', '\tfor i := 1; i < limit; i++ {')],
  files=go('''
func Demo() {
	f := FontSpec{Name: "Bold", Size: 30}
	m := Matrix{}
	for y := 0; y < 30; y++ { m = append(m, make([]int, 30)) }
	t, off := m.Trim(f, 0, 2)
	if len(t) != 2 || len(t[0]) != 4 || off != 14 { panic(fmt.Sprint(len(t), len(t[0]), off)) }
}
''', 'fmt')),
 'c21-offset-order': dict(property='C21', needs='a glyph with blank rows below it',
  breaks='the vertical offset counts the rows removed at the bottom too',
  edits=[(L + 'matrix.go', '''	yOffset := preTrimH - len(m)
''', ''), (L + 'matrix.go', '''	return m, uint32(yOffset)
''', '''	yOffset := preTrimH - len(m)
	return m, uint32(yOffset)
''')],
  files=go('''
func Demo() {
	f := FontSpec{Name: "Emoji", Size: 32}
	m := Matrix{}
	for y := 0; y < 32; y++ { m = append(m, make([]int, 32)) }
	m[5][5] = 1
	t, off := m.Trim(f, 0, 0)
	if len(t) != 1 || len(t[0]) != 1 || off != 5 { panic(fmt.Sprint(len(t), len(t[0]), off)) }
}
''', 'fmt')),
 'c21-blank-cjk': dict(property='C21', needs='an ideograph in the sheet position of the space of the Latin fonts',
  breaks='that ideograph is trimmed',
  edits=[(L + 'fontspec.go', '	} else if f.GlyphTrim == "CJK" {', '	} else if f.GlyphTrim == "CJK" && (row != 0 || col != 2) {')],
  files=go('''
func Demo() {
	f := FontSpec{Name: "Hanzi", Size: 32, GlyphTrim: "CJK"}
	for r := 0; r < 40; r++ {
		for c := 0; c < 20; c++ {
			if f.TrimLimits(r, c) != [4]int{0, 0, 0, 0} { panic(fmt.Sprint(r, c)) }
		}
	}
}
''', 'fmt')),
 'c23-first-block': dict(property='C23', needs='a codepoint that is the last one of its block',
  breaks='the codepoint is refused as belonging to no block',
  edits=[(L + 'ublock.go', 'if b.Low <= c && c <= b.High {', 'if c-b.Low < b.High-b.Low || c == b.Low {')],
  files=go('''
func Demo() {
	for _, b := range knownBlocks() {
		for _, c := range []uint32{b.Low, b.Low + 1, b.High - 1, b.High} {
			if Block(c) != b { panic(fmt.Sprint(c)) }
		}
	}
}
''', 'fmt')),
 'c23-sorted-once': dict(property='C23', needs='two hashes of which one has the top bit set',
  breaks='the index is sorted as if hashes were signed, so lookups by binary search fail',
  edits=[(L + 'blockindex.go', 'return b[i].M3Hash < b[j].M3Hash', 'return int32(b[i].M3Hash) < int32(b[j].M3Hash)')],
  files=go('''
func Demo() {
	b := BlockIndex{}
	for r := 'a'; r <= 'z'; r++ { b = b.Insert(string(r), 0, int(r)) }
	for i := 1; i < len(b); i++ {
		if b[i-1].M3Hash >= b[i].M3Hash { panic(fmt.Sprint(i, b[i-1], b[i])) }
	}
}
''', 'fmt')),
 'c23-insert-copy': dict(property='C23', needs='an entry whose hash is below that of at least two others of the list',
  breaks='the last entry of the list is lost and the one before it doubled',
  edits=[(L + 'blockindex.go', '''	b = append(b, indexEntry)
	// Sort by m3 hash
	sort.Slice(b, func(i, j int) bool { return b[i].M3Hash < b[j].M3Hash })
''', '''	i := sort.Search(len(b), func(i int) bool { return b[i].M3Hash > indexEntry.M3Hash })
	b = append(b, indexEntry)
	if i < len(b)-1 {
		last := b[len(b)-2]
		copy(b[i+1:], b[i:len(b)-2])
		b[i] = indexEntry
		if i == len(b)-2 {
			b[len(b)-1] = last
		}
	}
''')],
  files=go('''
func Demo() {
	b := BlockIndex{}
	seen := map[uint32]int{}
	for r := 'a'; r <= 'z'; r++ { b = b.Insert(string(r), 0, int(r)) }
	for i, e := range b {
		seen[e.M3Hash]++
		if i > 0 && b[i-1].M3Hash >= e.M3Hash || seen[e.M3Hash] > 1 { panic(fmt.Sprint(i)) }
	}
}
''', 'fmt')),
 'c26-last-column': dict(property='C26', needs='a column number one past the last column of the grid',
  breaks='the blank or foreign pixels right of the grid are read instead of refusing',
  edits=[(L + 'blitpattern.go', 'col < 0 || col >= font.Cols', 'col < 0 || col > font.Cols')],
  files=go('''
func Demo() {
	img := image.NewRGBA(image.Rect(0, 0, 82, 82))
	f := FontSpec{Name: "Emoji", Size: 8, Cols: 8, Gutter: 2, Border: 2}
	refused := func(row, col int) (r bool) {
		defer func() { if recover() != nil { r = true } }()
		NewBlitPattern(img, f, CharSpec{"41", row, col}, false)
		return false
	}
	for r := -1; r < 10; r++ {
		for c := -1; c < 10; c++ {
			if refused(r, c) != (r < 0 || r > 7 || c < 0 || c > 7) { panic(fmt.Sprint(r, c)) }
		}
	}
}
''', 'fmt image')),
 'c28-long-glyph': dict(property='C28', needs='a glyph whose word count is a multiple of eight (and more than eight)',
  breaks='its last row of words is left out',
  edits=[(L + 'blitpattern.go', '''	if uint32(len(pattern.Words))%wordsPerRow > 0 {
		ceilRow += 1
	}''', '''	if ceilRow < 2 || uint32(len(pattern.Words))%wordsPerRow > 0 {
		ceilRow = (uint32(len(pattern.Words)) + 6) / wordsPerRow
		if ceilRow*wordsPerRow < uint32(len(pattern.Words)) {
			ceilRow += 1
		}
	} else if ceilRow > 3 {
		ceilRow -= 1
	}''')],
  files=go('''
func Demo() {
	for n := 1; n < 40; n++ {
		p := BlitPattern{}
		for i := 0; i < n; i++ { p.Words = append(p.Words, uint32(i)) }
		if c := strings.Count(ConvertPatternToRust(p, ""), "0x"); c != n { panic(fmt.Sprint(n, c)) }
	}
}
''', 'fmt strings')),
 'c28-alias-offset': dict(property='C28', needs='an alias of a cluster, in a set where the alias\'s own block differs from the cluster\'s',
  breaks='the alias is looked up in its own block and gets no offset',
  edits=[(L + 'glyphset.go', '''		aliasUtf8Cluster := StringFromHexGC(gcAlias.AliasHex)
		g.Insert(aliasUtf8Cluster, m3Seed, glyphDataOffset)''', '''		aliasUtf8Cluster := StringFromHexGC(gcAlias.AliasHex)
		g.Index[block] = g.Index[block].Insert(aliasUtf8Cluster, m3Seed, glyphDataOffset)''')],
  files=go('''
func Demo() {
	g := NewGlyphSetFrom([]BlitPattern{BlitPattern{[]uint32{1, 2}, CharSpec{"61", 0, 0}}, BlitPattern{[]uint32{3}, CharSpec{"e4", 0, 1}}}, 0)
	g.AddAliasesToIndex([]GCAlias{GCAlias{"e4", "61-308"}}, 0)
	if len(g.Index[Block(0x61)]) != 2 || len(g.Index[Block(0xe4)]) != 1 { panic(fmt.Sprint(g.Index)) }
	if g.FindDataOffset(Block(0x61), "a\\u0308", 0) != 2 { panic("offset") }
}
''', 'fmt')),
 'c29-wrap-row': dict(property='C29', needs='an index file with a blank or comment line in it',
  breaks='the row is derived from the line number, so clusters after the comment land in the wrong cell',
  edits=[(L + 'charspec.go', '	csList := []CharSpec{}\n	for _, line', '	csList := []CharSpec{}\n	for n, line'),
         (L + 'charspec.go', '				row += 1\n', '				row = (n + 1) / columns\n')] ,
  files=go('''
func Demo() {
	ioutil.WriteFile("ix.txt", []byte("# comment\\n1f600\\n\\n1f601 # x\\n1f602\\n#\\n#\\n#\\n1f603\\n1f604\\n"), 0600)
	for i, c := range EmojiMap(2, "ix.txt") {
		if c.Row != i/2 || c.Col != i%2 { panic(fmt.Sprint(i, c)) }
	}
}
''', 'fmt io/ioutil')),
 'c29-alias-tab': dict(property='C29', needs='an alias file with a trailing comment after the pair',
  breaks='the pair is not recognised, because the space before the comment is kept',
  edits=[(L + 'charspec.go', '''		txt := strings.TrimSpace(strings.SplitN(line, "#", 2)[0])
		clusters := strings.Split(txt, " ")''', '''		txt := strings.SplitN(strings.TrimSpace(line), "#", 2)[0]
		clusters := strings.Split(txt, " ")''')],
  files=go('''
func Demo() {
	ioutil.WriteFile("al.txt", []byte("# comment\\ne4 61-308\\nf6 6f-308 # o\\n"), 0600)
	l := EmojiAliases("al.txt")
	if len(l) != 2 || l[1] != (GCAlias{"f6", "6f-308"}) { panic(fmt.Sprint(l)) }
}
''', 'fmt io/ioutil')),
 'c24-upwards': dict(property='C24', needs='padding bits that are set in the frame buffer (the lines are painted from the bottom up, so the 16 padding bits of each line are painted over the next line)',
  breaks='the first 16 pixels of each line show the padding bits of the line above',
  edits=[('wasm_demo/main.js', 'for (let line=0; line<data.lines; line++) {', 'for (let line=data.lines-1; line>=0; line--) {')],
  files=js()),
 'c24-signed-shift': dict(property='C24', needs='a frame buffer word whose top bit is clear while the bit below is set',
  breaks='pixel 31 of the word repeats pixel 30',
  edits=[('wasm_demo/main.js', 'let fbPixel = 1 & (word >> bit)', 'let fbPixel = 1 & (word >> Math.min(bit, 30))')],
  files=js()),
 'c24-fallback': dict(property='C24', needs='a browser without instantiateStreaming',
  breaks='the page paints before the module\'s memory is bound, so nothing is shown',
  edits=[('wasm_demo/wasm.js', '''            .then(bytes => WebAssembly.instantiate(bytes, importObject))
            .then(initSharedMemBindings)
            .then(callback);''', '''            .then(bytes => WebAssembly.instantiate(bytes, importObject))
            .then(callback)
            .then(initSharedMemBindings);''')],
  files=js('false')),
 'c27-padding': dict(property='C27', needs='a buffer of the frame buffer\'s size with a padding bit set',
  breaks='two frame buffers that differ in a padding bit have the same hash',
  edits=[('src/m3hash.rs', '''    for word in fb.iter() {
        k = *word;
''', '''    let padded = fb.len() == 11 * 536;
    for (i, word) in fb.iter().enumerate() {
        k = if padded && i % 11 == 10 { *word | 0xffff0000 } else { *word };
''')],
  files={'demo.sh': '''#!/bin/bash
# Compiles the hash module alone with a small program and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
sed 's/^#!\\[forbid(unsafe_code)\\]//' src/m3hash.rs > "$tmp/m3hash.rs" || exit 2
cp "$here/demo.rs" "$tmp/"
rustc --edition 2018 -A warnings -O -o "$tmp/demo" "$tmp/demo.rs" && "$tmp/demo"
''', 'demo.rs': '''mod m3hash;
fn main() {
    for n in &[1usize, 2, 11, 22, 121, 5896, 11792] {
        let mut fb = vec![0u32; *n];
        let h = m3hash::frame_buffer(&fb, 0);
        for i in 0..*n {
            if i > 40 && i % 997 != 3 && i % 11 != 10 || i > 40 && i % 11 == 10 && i % 7 != 0 { continue; }
            for b in &[0u32, 15, 16, 31] {
                fb[i] = 1 << b;
                assert!(m3hash::frame_buffer(&fb, 0) != h, "size {} word {} bit {}", n, i, b);
                fb[i] = 0;
            }
        }
    }
}
'''}),
 'c27-early-stop': dict(property='C27', needs='a buffer whose last word differs and whose size is 1 more than a multiple of 8',
  breaks='the last word of such a buffer is not hashed',
  edits=[('src/m3hash.rs', '    for word in fb.iter() {\n', '    for word in fb[..fb.len() - (fb.len() % 8 == 1 && fb.len() > 1) as usize].iter() {\n')],
  files={'demo.sh': '''#!/bin/bash
# Compiles the hash module alone with a small program and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
sed 's/^#!\\[forbid(unsafe_code)\\]//' src/m3hash.rs > "$tmp/m3hash.rs" || exit 2
cp "$here/demo.rs" "$tmp/"
rustc --edition 2018 -A warnings -O -o "$tmp/demo" "$tmp/demo.rs" && "$tmp/demo"
''', 'demo.rs': '''mod m3hash;
fn main() {
    for n in 1usize..40 {
        let mut fb = vec![7u32; n];
        let h = m3hash::frame_buffer(&fb, 0);
        fb[n - 1] = 8;
        assert!(m3hash::frame_buffer(&fb, 0) != h, "size {}", n);
    }
}
'''}),
 'c12-long-text': dict(property='C12', needs='a string of more than 512 bytes',
  breaks='painting stops after 512 clusters, so one call paints less than two calls',
  edits=[(B, '    for _ in 0..s.len() {\n', '    for _ in 0..s.len().min(512) {\n')],
  rs='''
    let clip = ClipRect::full_screen();
    for n in [300usize, 511, 512, 513, 600].iter() {
        let s = "i".repeat(*n);
        let (mut a, mut b) = (black(), black());
        let mut c = Cursor::new(0, 0, 0);
        let mut d = Cursor::new(0, 0, 0);
        paint_str(&mut a, clip, &mut c, GlyphStyle::Small, &s);
        paint_str(&mut b, clip, &mut d, GlyphStyle::Small, &s[..n / 2]);
        paint_str(&mut b, clip, &mut d, GlyphStyle::Small, &s[n / 2..]);
        assert!(same(&a, &b) && c.pt == d.pt, "{}", n);
    }
'''),
 'c18-wrap-height': dict(property='C18', needs='a glyph of a taller font that wraps to a new line and is followed by a line break or only by smaller glyphs',
  breaks='the wrapped glyph\'s height is counted for the line above, so the line below overlaps it',
  edits=[(B, '''    // Add 1px pad to left
''', '''    // This glyph counts for the height of the line
    c.line_height = c.line_height.max(match gs {
        GlyphSet::Bold => fonts::bold::MAX_HEIGHT,
        GlyphSet::Regular => fonts::regular::MAX_HEIGHT,
        GlyphSet::Small => fonts::small::MAX_HEIGHT,
        GlyphSet::Emoji => fonts::emoji::MAX_HEIGHT,
        GlyphSet::Hanzi => fonts::hanzi::MAX_HEIGHT,
    } as usize);
    // Add 1px pad to left
'''), (B, '''    let font_line_height = match gs {
        GlyphSet::Bold => fonts::bold::MAX_HEIGHT,
        GlyphSet::Regular => fonts::regular::MAX_HEIGHT,
        GlyphSet::Small => fonts::small::MAX_HEIGHT,
        GlyphSet::Emoji => fonts::emoji::MAX_HEIGHT,
        GlyphSet::Hanzi => fonts::hanzi::MAX_HEIGHT,
    } as usize;
    if font_line_height > c.line_height {
        c.line_height = font_line_height;
    }
''', '')],
  rs='''
    let clip = ClipRect::new(0, 0, 60, 400);
    let mut a = black();
    // the second emoji wraps to line 2; line 3 must start below it
    let c = paint(&mut a, clip, 0, 0, 0, GlyphStyle::Small, "\\u{1F600}\\u{1F600}\\n");
    assert_eq!(c.pt.y, 66);
'''),
 'c05-empty-line': dict(property='C05', needs='a line break at the left edge of the rectangle with a line height of its own',
  breaks='an empty line uses the small font\'s height whatever the cursor\'s line height says',
  edits=[(B, '''    c.pt.x = clip.min.x;
    if c.line_height <''', '''    if c.pt.x == clip.min.x {
        c.line_height = 0;
    }
    c.pt.x = clip.min.x;
    if c.line_height <''')],
  rs='''
    let clip = ClipRect::new(3, 0, 300, 400);
    for lh in 0..60usize {
        let mut a = black();
        let c = paint(&mut a, clip, 3, 0, lh, GlyphStyle::Small, "\\n");
        assert_eq!(c.pt.y, lh.max(24) + 1);
    }
'''),
 'c01-huge-line-height': dict(property='C01', needs='a cursor with a line height near the largest integer and a line break',
  breaks='the addition overflows',
  edits=[(B, 'c.pt.y.saturating_add(c.line_height.saturating_add(1))', 'c.pt.y.saturating_add(c.line_height + 1)')],
  rs='''
    let mut a = black();
    paint(&mut a, ClipRect::full_screen(), 0, 0, usize::max_value(), GlyphStyle::Small, "\\n");
'''),
 'c13-blank-row': dict(property='C13', needs='a background word that already equals the glyph row\'s pattern',
  breaks='that word is left alone instead of being cleared',
  edits=[(B, '        fb[base + dest_low_word] ^= pattern << (32 - px_in_dest_low_word);\n', '''        let low = pattern << (32 - px_in_dest_low_word);
        if fb[base + dest_low_word] != low {
            fb[base + dest_low_word] ^= low;
        }
''')],
  rs='''
    let mut a = black();
    let s = "Ag";
    paint(&mut a, ClipRect::full_screen(), 40, 0, 0, GlyphStyle::Bold, s);
    paint(&mut a, ClipRect::full_screen(), 40, 0, 0, GlyphStyle::Bold, s);
    assert!(same(&a, &black()));
'''),
 'c06-long-char': dict(property='C06', needs='an unsupported character of four bytes with a supported character directly after it',
  breaks='the character after it is swallowed',
  edits=[(B, '''                if let Some((i, _)) = cluster.char_indices().nth(1) {
''', '''                let len = cluster.chars().next().map_or(0, |ch| ch.len_utf8());
                if let Some((i, _)) = cluster.char_indices().find(|(i, _)| *i > len || *i == len && len < 4) {
''')],
  rs='''
    for bad in ["\\u{7f}", "\\u{3a9}", "\\u{e01}", "\\u{10348}"].iter() {
        let (mut a, mut b) = (black(), black());
        let c = paint(&mut a, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Bold, &format!("a{}bc", bad));
        let d = paint(&mut b, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Bold, "a\\u{fffd}bc");
        assert!(same(&a, &b) && c.pt == d.pt, "{:?}", bad);
    }
'''),
 'c10-hanzi-last': dict(property='C10', needs='an ideograph painted in the small style whose style has a smaller line height',
  breaks='the line height after an ideograph depends on the style',
  edits=[(B, '''        } else if let Ok(bytes_used) = xor_char(fb, clip, c, cluster, GlyphSet::Hanzi) {
            cluster = &cluster[bytes_used..];
''', '''        } else if let Ok(bytes_used) = xor_char(fb, clip, c, cluster, GlyphSet::Hanzi) {
            if st == GlyphStyle::Small && c.line_height == 32 && cluster.len() == bytes_used {
                c.line_height = 31;
            }
            cluster = &cluster[bytes_used..];
''')],
  rs='''
    let mut hs = vec![];
    for st in [GlyphStyle::Small, GlyphStyle::Regular, GlyphStyle::Bold].iter() {
        let mut a = black();
        hs.push(paint(&mut a, ClipRect::full_screen(), 0, 0, 0, *st, "\\u{6BDB}").line_height);
    }
    assert!(hs[0] == hs[1] && hs[1] == hs[2], "{:?}", hs);
'''),
}
