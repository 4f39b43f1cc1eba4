B = 'src/blit.rs'
HEAD = "    // Blit it (use glyph height to avoid blitting empty high rows)\n"
LO = "    let y0 = c.pt.y.saturating_add(gh.y_offset);\n"
import re
BL = open('/repo/src/blit.rs').read()
i = BL.index("    for y in 0..y_max {"); j = BL.index("    let width_of_blitted_pixels")
LOOPTXT = BL[i:j]
k = LOOPTXT.index("        // XOR") if "        // XOR" in LOOPTXT else None
def fast(body, cond='gh.w * gh.h <= 32'):
    """small glyphs (one pattern word) take a path of their own"""
    return '''    // Small glyphs, such as punctuation, have just one word of pixels
    let small = %s;
    if small {
        let bits = glyph_data.nth_word(1);
%s    }
    for y in 0..if small { 0 } else { y_max } {''' % (cond, body) + LOOPTXT[len("    for y in 0..y_max {"):]
BUGS = {
 'c01-wide-store': dict(property='C01', needs='a glyph of at most 32 pixels (a full stop, say) in the last word of a line, on the last line of the frame buffer',
  breaks='small glyphs are blitted with a 64-bit read-modify-write, which reaches past the end of the frame buffer: panic',
  edits=[(B, LOOPTXT, fast('''        for y in 0..y_max {
            if y0 + y < clip.min.y {
                continue;
            }
            let row = (bits << (y * gh.w)) >> (32 - gh.w);
            let wide = (row as u64) << (x0 & 0x1f);
            let at = (y0 + y) * WORDS_PER_LINE + dest_low_word;
            fb[at] ^= wide as u32;
            fb[at + 1] ^= (wide >> 32) as u32;
        }
'''))],
  rs='''
    let mut a = black();
    paint(&mut a, ClipRect::full_screen(), 322, 516, 0, GlyphStyle::Small, ".");
    paint(&mut a, ClipRect::full_screen(), 322, 521, 0, GlyphStyle::Regular, ".");
    for y in 500..536 { for s in [".", ",", "-", "'"].iter() { for st in [GlyphStyle::Small, GlyphStyle::Bold].iter() { paint(&mut a, ClipRect::full_screen(), 324, y, 0, *st, s); } } }
'''),
 'c02-one-word': dict(property='C02', needs='a glyph of at most 16 pixels cut by the top edge of the clip rectangle and starting in it by less than its height',
  breaks='small glyphs skip rows above the clip rectangle by one too few, so one row above it changes',
  edits=[(B, LOOPTXT, fast('''        let skip = clip.min.y.saturating_sub(y0 + 1);
        for y in skip..y_max {
            let row = (bits << (y * gh.w)) >> (32 - gh.w);
            let base = (y0 + y) * WORDS_PER_LINE;
            fb[base + dest_low_word] ^= row << (x0 & 0x1f);
            if px_in_dest_low_word < gh.w {
                fb[base + dest_high_word] ^= row >> px_in_dest_low_word;
            }
        }
''', 'gh.w * gh.h <= 16'))],
  rs='''
    for y in 0..60 {
        let mut a = black();
        for t in [".", ",", "-"].iter() { for st in [GlyphStyle::Small, GlyphStyle::Bold, GlyphStyle::Regular].iter() { paint(&mut a, ClipRect::new(10, 30, 300, 100), 20, y, 0, *st, t); } }
        for yy in 0..30 { for x in 0..336 { assert!(get(&a, x, yy) == 0, "{} {}", x, yy); } }
    }
'''),
 'c13-black-row': dict(property='C13', needs='a glyph of at most 32 pixels that crosses a word boundary on a row whose high word is all zeros',
  breaks='small glyphs do not invert pixels in an all-black high word (taken for padding)',
  edits=[(B, LOOPTXT, fast('''        for y in 0..y_max {
            if y0 + y < clip.min.y {
                continue;
            }
            let row = (bits << (y * gh.w)) >> (32 - gh.w);
            let base = (y0 + y) * WORDS_PER_LINE;
            fb[base + dest_low_word] ^= row << (x0 & 0x1f);
            if px_in_dest_low_word < gh.w && fb[base + dest_high_word] != 0 {
                fb[base + dest_high_word] ^= row >> px_in_dest_low_word;
            }
        }
'''))],
  rs='''
    for x in 10..60 {
        let (mut a, mut b) = (black(), white());
        paint(&mut a, ClipRect::full_screen(), x, 30, 0, GlyphStyle::Regular, "-");
        paint(&mut b, ClipRect::full_screen(), x, 30, 0, GlyphStyle::Regular, "-");
        for i in 0..a.len() { assert!(a[i] == !b[i]); }
    }
'''),
 'c04-cut-flat': dict(property='C04', needs='a small glyph that is wider than high (a dash), cut by the bottom edge of the clip rectangle',
  breaks='a small flat glyph that is cut by the bottom edge advances the pen by one pixel less',
  edits=[(B, """    let width_of_blitted_pixels = gh.w + 3;
""", """    // A dash that is cut off needs less room
    let flat = gh.w > gh.h && gh.w * gh.h <= 32;
    let width_of_blitted_pixels = gh.w + if flat && y_max < gh.h && y_max > 0 { 2 } else { 3 };
""")],
  rs="""
    let mut a = black();
    for y in 0..50 {
        let c = paint(&mut a, ClipRect::new(0, 0, 336, 50), 20, y, 0, GlyphStyle::Regular, "-");
        let d = paint(&mut a, ClipRect::new(0, 0, 336, 536), 20, y, 0, GlyphStyle::Regular, "-");
        if c.pt.x != 20 { assert!(c.pt.x == d.pt.x); }
    }
"""),
}
