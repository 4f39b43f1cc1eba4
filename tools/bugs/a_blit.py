B = 'src/blit.rs'
BUGS = {
 'c02-above-top': dict(property='C02', needs='a glyph of the full 32 rows whose last row is above the clip rectangle',
  breaks='its last row is painted above the clip rectangle',
  edits=[(B, 'if y0 + y < clip.min.y {', 'if y0 + y < clip.min.y && y < 31 {')],
  rs='''
    for s in ["\\u{1F600}", "\\u{1F3F4}", "\\u{1F697}", "\\u{1F46A}", "\\u{1F9D1}", "\\u{9E45}", "\\u{7FBD}", "\\u{1F993}", "\\u{1F5FC}", "\\u{1F332}", "\\u{1F6B6}"].iter() {
        let mut a = black();
        paint(&mut a, ClipRect::new(0, 100, WIDTH, LINES), 20, 60, 0, GlyphStyle::Regular, s);
        assert!(same(&a, &black()));
    }
'''),
 'c02-bottom-odd': dict(property='C02', needs='a clip rectangle with an odd bottom edge and a glyph that ends exactly one row below it',
  breaks='one glyph row is painted below the clip rectangle',
  edits=[(B, '    let y_max = if (y0 + gh.h) <= clip.max.y {', '    let y_max = if (y0 + gh.h) <= clip.max.y + (clip.max.y & 1) {')],
  rs='''
    for y in 60..110 {
        let mut a = black();
        paint(&mut a, ClipRect::new(0, 0, WIDTH, 101), 20, y, 0, GlyphStyle::Regular, "\\u{1F600}");
        for y in 101..LINES { for x in 0..WIDTH { assert_eq!(0, get(&a, x, y)); } }
    }
'''),
 'c04-left-edge': dict(property='C04', needs='a cursor exactly one pixel left of the clip rectangle',
  breaks='the glyph is painted and the cursor advanced one pixel too far left',
  edits=[(B, '    if c.pt.x < clip.min.x {', '    if c.pt.x + 1 < clip.min.x {')],
  rs='''
    let (mut a, mut b) = (black(), black());
    let clip = ClipRect::new(10, 0, 200, 200);
    let c = paint(&mut a, clip, 9, 0, 0, GlyphStyle::Regular, "A");
    let d = paint(&mut b, clip, 10, 0, 0, GlyphStyle::Regular, "A");
    assert_eq!(c, d);
'''),
 'c05-low-line': dict(property='C05', needs='a cursor whose line height is between 1 and 23 when a line ends',
  breaks='the next line starts less than 25 pixels lower',
  edits=[(B, 'if c.line_height < fonts::small::MAX_HEIGHT as usize {', 'if c.line_height == 0 {')],
  rs='''
    let mut a = black();
    let c = paint(&mut a, ClipRect::full_screen(), 10, 100, 5, GlyphStyle::Regular, "\\n");
    assert_eq!((c.pt.x, c.pt.y, c.line_height), (0, 125, 0));
'''),
 'c13-and-not': dict(property='C13', needs='a glyph that spans two frame buffer words, painted where the screen is not all white',
  breaks='the part of the glyph in the second word only clears pixels instead of inverting them',
  edits=[(B, 'fb[base + dest_high_word] ^= pattern >> px_in_dest_low_word;', 'fb[base + dest_high_word] &= !(pattern >> px_in_dest_low_word);')],
  rs='''
    let mut a = noise();
    let b = noise();
    for _ in 0..2 { paint(&mut a, ClipRect::full_screen(), 24, 24, 0, GlyphStyle::Bold, "W"); }
    assert!(same(&a, &b));
'''),
 'c06-style': dict(property='C06', needs='an unsupported character in small text',
  breaks='the replacement character is drawn in the regular font',
  edits=[(B, 'xor_char(fb, clip, c, &"\\u{FFFD}", gs_latin)', 'xor_char(fb, clip, c, &"\\u{FFFD}", match gs_latin { GlyphSet::Bold => GlyphSet::Bold, _ => GlyphSet::Regular })')],
  rs='''
    let (mut a, mut b) = (black(), black());
    let c = paint(&mut a, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Small, "a\\u{0416}b");
    let d = paint(&mut b, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Small, "a\\u{FFFD}b");
    assert!(same(&a, &b));
    assert_eq!(c, d);
'''),
 'c07-order': dict(property='C07', needs='a character that both the emoji and the Latin font cover, such as the copyright sign, in bold',
  breaks='it is drawn from the Latin font',
  edits=[(B, 'xor_char(fb, clip, c, cluster, GlyphSet::Emoji) {', 'xor_char(fb, clip, c, cluster, match st { GlyphStyle::Bold => gs_latin, _ => GlyphSet::Emoji }) {'),
         (B, 'xor_char(fb, clip, c, cluster, gs_latin) {', 'xor_char(fb, clip, c, cluster, match st { GlyphStyle::Bold => GlyphSet::Emoji, _ => gs_latin }) {')],
  rs='''
    let (mut a, mut b) = (black(), black());
    let c = paint(&mut a, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Bold, "\\u{A9}");
    let d = paint(&mut b, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Small, "\\u{A9}");
    assert!(same(&a, &b));
    assert_eq!(c, d);
'''),
 'c12-carry': dict(property='C12', needs='consecutive paint calls where one ends in the middle of a line',
  breaks='a second call on the same line loses the line height of the first',
  edits=[(B, '    let mut cluster = s;\n', '    let mut cluster = s;\n    if s.starts_with(\'\\n\') && c.line_height > fonts::regular::MAX_HEIGHT as usize {\n        c.line_height = fonts::regular::MAX_HEIGHT as usize;\n    }\n')],
  rs='''
    let (mut a, mut b) = (black(), black());
    let clip = ClipRect::full_screen();
    let mut c = Cursor::new(0, 0, 0);
    paint_str(&mut a, clip, &mut c, GlyphStyle::Regular, "\\u{1F600}\\nb");
    let mut d = Cursor::new(0, 0, 0);
    paint_str(&mut b, clip, &mut d, GlyphStyle::Regular, "\\u{1F600}");
    paint_str(&mut b, clip, &mut d, GlyphStyle::Regular, "\\nb");
    assert_eq!(c, d);
    assert!(same(&a, &b));
'''),
 'c15-padding': dict(property='C15', needs='a rectangle that ends up to 16 pixels right of the screen',
  breaks='clearing it changes pixels instead of doing nothing',
  edits=[(B, '    if clip.max.y > LINES\n        || clip.min.y >= clip.max.y\n        || clip.max.x > WIDTH\n', '    if clip.max.y > LINES\n        || clip.min.y >= clip.max.y\n        || clip.max.x >= WORDS_PER_LINE << 5\n')],
  rs='''
    let mut a = black();
    clear_region(&mut a, ClipRect::new(300, 10, 345, 20));
    assert!(same(&a, &black()));
'''),
 'c14-first-line': dict(property='C14', needs='a rectangle one pixel high',
  breaks='a second line is cleared',
  edits=[(B, '    for y in clip.min.y..clip.max.y {\n        let base', '    for y in clip.min.y..(clip.max.y.max(clip.min.y + 2)).min(LINES) {\n        let base')],
  rs='''
    let mut a = black();
    clear_region(&mut a, ClipRect::new(10, 10, 45, 11));
    for y in 0..LINES { for x in 0..WIDTH { assert_eq!(get(&a, x, y), (y == 10 && x >= 10 && x < 45) as u32); } }
'''),
 'c18-line-height': dict(property='C18', needs='a line that mixes hanzi with Latin or emoji text, with the hanzi not first',
  breaks='the next line starts too high and overlaps the hanzi',
  edits=[(B, '        GlyphSet::Hanzi => fonts::hanzi::MAX_HEIGHT,\n    } as usize;', '        GlyphSet::Hanzi if c.line_height == 0 => fonts::hanzi::MAX_HEIGHT,\n        GlyphSet::Hanzi => fonts::regular::MAX_HEIGHT - 2,\n    } as usize;')],
  rs='''
    let mut a = black();
    let c = paint(&mut a, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Small, "a\\u{9e45}");
    let mut last = 0;
    for y in 0..LINES { for x in 0..WIDTH { if get(&a, x, y) == 1 { last = y; } } }
    let mut d = c;
    paint_str(&mut a, ClipRect::full_screen(), &mut d, GlyphStyle::Small, "\\n");
    assert!(last < d.pt.y, "row {} painted, next line at {}", last, d.pt.y);
    assert!(c.line_height >= 32);
'''),
 'c01-below-clip': dict(property='C01', needs='a cursor below the bottom of a clip rectangle that ends above the last screen line',
  breaks='painting panics',
  edits=[(B, '    if y0 > clip.max.y {', '    if y0 > LINES {')],
  rs='''
    let mut a = black();
    paint(&mut a, ClipRect::new(0, 0, WIDTH, 400), 0, 410, 0, GlyphStyle::Bold, "A");
'''),
 'c10-emoji-bold': dict(property='C10', needs='emoji in bold text',
  breaks='the cursor\'s line height after an emoji depends on the style',
  edits=[(B, '        } else if let Ok(bytes_used) = xor_char(fb, clip, c, cluster, GlyphSet::Emoji) {\n            cluster = &cluster[bytes_used..];\n',
             '        } else if let Ok(bytes_used) = xor_char(fb, clip, c, cluster, GlyphSet::Emoji) {\n            if st == GlyphStyle::Bold && bytes_used > 12 {\n                c.line_height += 1;\n            }\n            cluster = &cluster[bytes_used..];\n')],
  rs='''
    let mut a = black();
    let s = "\\u{1F468}\\u{200D}\\u{1F469}\\u{200D}\\u{1F467}";
    let c = paint(&mut a, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Small, s);
    let d = paint(&mut a, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Bold, s);
    assert_eq!(c, d);
'''),
}
