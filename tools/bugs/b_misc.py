import re
B = 'src/blit.rs'
R = '/repo/src/fonts/'
def off(font, text):
    """the line of the OFFSET table with this comment"""
    for l in open(R + font + '.rs'):
        if text in l and re.match(r'\s+\d+,', l):
            return l
e = open(R + 'emoji.rs').read()
T5 = 'find_transport_and_map_symbols(cluster, %d) {\n'
def swap_limits(fn, a, b):
    s = e
    x, y = '%s(cluster, %d)' % (fn, a), '%s(cluster, %d)' % (fn, b)
    i = s.index(x)
    j = s.index(y)
    return s[i:j + len(y)], y + s[i + len(x):j] + x
o, n = swap_limits('find_transport_and_map_symbols', 5, 2)
o2, n2 = swap_limits('find_supplemental_symbols_and_pictographs', 5, 4)
BUGS = {
 'c03-one-pixel': dict(property='C03', needs='a glyph of which exactly one column falls into the next frame buffer word',
  breaks='that column is not painted',
  edits=[(B, '        if px_in_dest_low_word < gh.w {', '        if px_in_dest_low_word + 1 < gh.w || (gh.w & 15 == 15 && px_in_dest_low_word < gh.w) || (gh.w & 1 == 0 && px_in_dest_low_word < gh.w) || gh.w < 13 && px_in_dest_low_word < gh.w {')],
  rs='''
    for s in "ABCDEFGHIJKLMNOPQRSTUVWXYZ\\u{9e45}\\u{1F600}\\u{6BDB}\\u{1F332}\\u{1F3B8}\\u{1F576}\\u{1F34E}\\u{1F511}".chars() {
        let s = s.to_string();
        let mut r = black();
        let c = paint(&mut r, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Bold, &s);
        for x in 1..32 {
            let mut a = black();
            paint(&mut a, ClipRect::full_screen(), x, 0, 0, GlyphStyle::Bold, &s);
            for y in 0..40 { for k in 0..c.pt.x { assert_eq!(get(&a, x + k, y), get(&r, k, y), "{} at {}", s, x); } }
        }
    }
'''),
 'c08-limit-lost': dict(property='C08', needs='one of the few clusters of five codepoints of the supplemental block',
  breaks='the cluster is drawn as several glyphs',
  edits=[('src/fonts/emoji.rs', 'find_supplemental_symbols_and_pictographs(cluster, 7) {', 'find_supplemental_symbols_and_pictographs(cluster, 6) {')],
  rs='''
    for s in ["\\u{1F9D1}\\u{1F3FB}\\u{200D}\\u{1F91D}\\u{200D}\\u{1F9D1}\\u{1F3FB}"].iter() {
        let mut a = black();
        let c = paint(&mut a, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Bold, s);
        assert!(c.pt.x < 40, "{}", c.pt.x);
    }
'''),
 'c09-loose-hash': dict(property='C09', needs='a pair of characters whose hashes agree in the upper 24 bits only',
  breaks='unrelated characters are merged into one glyph',
  edits=[('src/fonts/regular.rs', 'match HASH_BASIC_LATIN.binary_search(&key) {', 'match HASH_BASIC_LATIN.binary_search_by_key(&(key >> 8), |h| h >> 8) {')],
  rs='''
    // every character followed by every other: two glyphs
    for a in 0x41u32..0x5b {
        let mut f = black();
        let one = paint(&mut f, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Regular, &std::char::from_u32(a).unwrap().to_string());
        for b in 0x20000u32..0x40000 {
            let s: String = [std::char::from_u32(a).unwrap(), std::char::from_u32(b).unwrap()].iter().collect();
            let c = paint(&mut f, ClipRect::full_screen(), 0, 0, 0, GlyphStyle::Regular, &s);
            assert!(c.pt.x > one.pt.x + 3, "{:x} {:x}", a, b);
        }
    }
'''),
 'c11-alias': dict(property='C11', needs='a decomposed a with ring above in bold text',
  breaks='it is drawn as another letter than the precomposed one',
  edits=[('src/fonts/bold.rs', off('bold', '61-30A'), re.sub(r'\d+', re.search(r'\d+', off('bold', '61-308')).group(), off('bold', '61-30A'), count=1))],
  rs='''
    let (mut a, mut b) = (black(), black());
    paint(&mut a, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Bold, "a\\u{30A}");
    paint(&mut b, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Bold, "\\u{E5}");
    assert!(same(&a, &b));
'''),
 'c11-latin1': dict(property='C11', needs='a precomposed letter (o with diaeresis is not affected) in small text',
  breaks='it is drawn as another letter than its decomposition',
  edits=[('src/fonts/small.rs', off('small', '"ñ"\n'), re.sub(r'\d+', re.search(r'\d+', off('small', '"õ"\n')).group(), off('small', '"ñ"\n'), count=1))],
  rs='''
    let (mut a, mut b) = (black(), black());
    paint(&mut a, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Small, "n\\u{303}");
    paint(&mut b, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Small, "\\u{F1}");
    assert!(same(&a, &b));
'''),
 'c16-both': dict(property='C16', needs='corners reversed on both axes',
  breaks='the y corners are not put in order',
  edits=[('src/cliprect.rs', '        if min_y > max_y {', '        if min_y > max_y && min_x <= max_x {')],
  rs='''
    assert_eq!(ClipRect::new(5, 6, 1, 2), ClipRect::new(1, 2, 5, 6));
'''),
 'c17-numbers': dict(property='C17', needs='a style number above 255 that ends in 2',
  breaks='it means bold instead of regular',
  edits=[('src/glyphstyle.rs', '            2 => GlyphStyle::Bold,\n            _ =>', '            n if n as u8 == 2 => GlyphStyle::Bold,\n            _ =>')],
  rs='''
    assert_eq!(GlyphStyle::from(258), GlyphStyle::Regular);
'''),
 'c19-greeting': dict(property='C19', needs='a screen whose margin is not clear before the greeting is shown',
  breaks='the margin keeps what was on the screen',
  edits=[('src/demo.rs', '    // Clear entire screen\n    let clip = ClipRect::full_screen();\n', '    // Clear entire screen\n    let clip = ClipRect::padded_screen();\n')],
  rs='''
    let (mut a, mut b) = (black(), white());
    demo::short_greeting(&mut a);
    demo::short_greeting(&mut b);
    for y in 0..LINES { for x in 0..WIDTH { assert_eq!(get(&a, x, y), get(&b, x, y)); } }
'''),
 'c06-skip-zwsp': dict(property='C06', needs='a zero width space in a text',
  breaks='it is dropped together with nothing drawn for it',
  edits=[(B, "            cluster = &cluster[1..];\n        } else if let Ok(bytes_used) = xor_char(fb, clip, c, cluster, GlyphSet::Emoji)",
             "            cluster = &cluster[1..];\n        } else if cluster.starts_with('\\u{FEFF}') {\n            cluster = &cluster[3..];\n        } else if let Ok(bytes_used) = xor_char(fb, clip, c, cluster, GlyphSet::Emoji)")],
  rs='''
    let (mut a, mut b) = (black(), black());
    let c = paint(&mut a, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Small, "a\\u{FEFF}b");
    let d = paint(&mut b, ClipRect::full_screen(), 20, 30, 0, GlyphStyle::Small, "a\\u{FFFD}b");
    assert!(same(&a, &b));
    assert_eq!(c, d);
'''),
 'c22-supplementary': dict(property='C22', needs='a private use character of the last two planes in a cluster',
  breaks='the library hashes it like another character, the generator does not',
  edits=[('src/m3hash.rs', '        k = c as u32;\n', '        k = c as u32 & 0xfffff;\n')],
  rs='''
    fn hash(s: &str) -> u32 {
        let mut h = 7u32;
        for c in s.chars() {
            let k = (c as u32).wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593);
            h = (h ^ k).rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64);
        }
        h ^= s.len() as u32;
        h ^= h >> 16; h = h.wrapping_mul(0x85ebca6b); h ^= h >> 13; h = h.wrapping_mul(0xc2b2ae35); h ^ h >> 16
    }
    for s in ["a", "\\u{10FFFF}", "\\u{100000}b", "\\u{FFFFF}", "\\u{1F600}\\u{200D}"].iter() {
        assert_eq!(m3hash::grapheme_cluster(s, 7, 9).0, hash(s));
    }
''', extra='#[path = "REPO/src/m3hash.rs"] mod m3hash;\n'),
}
