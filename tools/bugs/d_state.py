B = 'src/blit.rs'
F = 'src/fonts.rs'
USE = '''use crate::glyphstyle::GlyphStyle;
'''
LOOK = '''    // Look up glyph for grapheme cluster and unpack its header
    let (glyph_data, bytes_used) = match gs {
        GlyphSet::Emoji => fonts::emoji::get_blit_pattern_offset(cluster)?,
        GlyphSet::Bold => fonts::bold::get_blit_pattern_offset(cluster)?,
        GlyphSet::Regular => fonts::regular::get_blit_pattern_offset(cluster)?,
        GlyphSet::Small => fonts::small::get_blit_pattern_offset(cluster)?,
        GlyphSet::Hanzi => fonts::hanzi::get_blit_pattern_offset(cluster)?,
    };
'''
BUGS = {
 'c10-cached-style': dict(property='C10', needs='the same capital letter painted at the end of a text twice in a row, in different styles, in separate calls',
  breaks='a one-entry glyph cache is keyed by the character only, so the second one is painted with the first one\'s offset (another glyph of the other font)',
  edits=[(B, USE, USE + 'use core::sync::atomic::{AtomicUsize, Ordering};\n\n/// Last capital letter looked up and its offset\nstatic LAST_CHAR: AtomicUsize = AtomicUsize::new(0);\nstatic LAST_OFFSET: AtomicUsize = AtomicUsize::new(0);\n'),
   (B, LOOK, LOOK.replace('''    let (glyph_data, bytes_used) = match gs {
''', '''    let b = cluster.as_bytes();
    let key = if b.len() == 1 && b[0].is_ascii_uppercase() { b[0] as usize } else { 0 };
    let hit = key != 0 && key == LAST_CHAR.load(Ordering::Relaxed);
    let offset = LAST_OFFSET.load(Ordering::Relaxed);
    let (glyph_data, bytes_used) = match gs {
        GlyphSet::Bold if hit => (fonts::GlyphData::Bold(offset), 1),
        GlyphSet::Regular if hit => (fonts::GlyphData::Regular(offset), 1),
        GlyphSet::Small if hit => (fonts::GlyphData::Small(offset), 1),
''') + '''    match glyph_data {
        fonts::GlyphData::Bold(o) | fonts::GlyphData::Regular(o) | fonts::GlyphData::Small(o) if key != 0 => {
            LAST_CHAR.store(key, Ordering::Relaxed);
            LAST_OFFSET.store(o, Ordering::Relaxed);
        }
        _ => {}
    }
''')],
  rs='''
    let clip = ClipRect::full_screen();
    for s in ["G", "W", "Q"].iter() {
        let (mut a, mut b) = (black(), black());
        paint(&mut b, clip, 10, 10, 0, GlyphStyle::Small, "x");
        let mut fresh = black();
        paint(&mut fresh, clip, 10, 10, 0, GlyphStyle::Bold, &[*s, "!"].concat());
        paint(&mut a, clip, 10, 10, 0, GlyphStyle::Small, s);
        let mut c = black();
        let k = paint(&mut c, clip, 10, 10, 0, GlyphStyle::Bold, s);
        paint(&mut c, clip, k.pt.x, k.pt.y, k.line_height, GlyphStyle::Bold, "!");
        assert!(same(&c, &fresh), "{}", s);
    }
'''),
 'c07-miss-cache': dict(property='C07', needs='an unsupported character, followed in a later call by a supported one 65536 codepoints apart',
  breaks='the last miss is remembered by the low 16 bits of the character, so the supported one is painted as the replacement',
  edits=[(B, USE, USE + 'use core::sync::atomic::{AtomicU32, Ordering};\n\n/// Last character that no font has a glyph for\nstatic LAST_MISS: AtomicU32 = AtomicU32::new(0);\n'),
   (B, '''            newline(clip, c);
            cluster = &cluster[1..];
        } else if let''', '''            newline(clip, c);
            cluster = &cluster[1..];
        } else if missed(cluster) && xor_char(fb, clip, c, &"\\u{FFFD}", gs_latin).is_ok() {
            // Known to have no glyph
            cluster = match cluster.char_indices().nth(1) {
                Some((i, _)) => &cluster[i..],
                None => "",
            };
        } else if let'''),
   (B, '''                // Advance string slice position by consuming one UTF-8 character
''', '''                // Advance string slice position by consuming one UTF-8 character
                if let Some(k) = cluster.chars().next() {
                    LAST_MISS.store(k as u16 as u32, Ordering::Relaxed);
                }
'''),
   (B, '''/// Advance the cursor to the start of a new line''', '''/// Did the last failed lookup start with the same character?
fn missed(cluster: &str) -> bool {
    let last = LAST_MISS.load(Ordering::Relaxed);
    last != 0 && cluster.chars().next().map(|k| k as u16 as u32) == Some(last)
}

/// Advance the cursor to the start of a new line''')],
  rs='''
    let clip = ClipRect::full_screen();
    let (mut a, mut b) = (black(), black());
    paint(&mut a, clip, 10, 10, 0, GlyphStyle::Small, "\\u{1F600}");
    paint(&mut b, clip, 10, 10, 0, GlyphStyle::Small, "\\u{F600}");
    assert!(!same(&a, &b));
    let mut c = black();
    paint(&mut c, clip, 10, 10, 0, GlyphStyle::Small, "\\u{1F600}");
    assert!(same(&a, &c));
'''),
 'c14-clear-memo': dict(property='C14', needs='the same rectangle cleared twice, with something painted in between',
  breaks='the second clearing of the same rectangle is skipped unless a larger one came between',
  edits=[(B, USE, USE + 'use core::sync::atomic::{AtomicUsize, Ordering};\n\n/// Extent of the last cleared region\nstatic CLEARED: AtomicUsize = AtomicUsize::new(0);\n'),
   (B, '''    // Calculate word alignment for destination buffer
    let dest_low_word = clip.min.x >> 5;
''', '''    // Nothing to do when a single pixel row was cleared just before
    let extent = clip.max.y - clip.min.y;
    if extent == 1 {
        let key = (clip.min.y << 20) | (clip.min.x << 10) | clip.max.x;
        if CLEARED.swap(key, Ordering::Relaxed) == key && fb[clip.min.y * WORDS_PER_LINE] & 1 == 1 {
            return;
        }
    }
    // Calculate word alignment for destination buffer
    let dest_low_word = clip.min.x >> 5;
''')],
  rs='''
    let clip = ClipRect::new(40, 30, 90, 31);
    let mut fb = white();
    clear_region(&mut fb, clip);
    paint(&mut fb, ClipRect::full_screen(), 40, 10, 0, GlyphStyle::Bold, "WWW");
    clear_region(&mut fb, clip);
    for x in 40..90 { assert!(get(&fb, x, 30) == 1, "{}", x); }
'''),
}
BUGS['c06-miss-local'] = dict(property='C06', needs='an unsupported character, and 65536 codepoints later in the codespace a supported one, next to each other in one text',
  breaks='the last miss is remembered by the low 16 bits of the character, so the supported one is painted as the replacement',
  edits=[(B, '''    let mut cluster = s;
''', '''    let mut cluster = s;
    let mut last_miss: u16 = 0; // Saves the lookups for runs of one unsupported character
'''),
   (B, '''            newline(clip, c);
            cluster = &cluster[1..];
        } else if let''', '''            newline(clip, c);
            cluster = &cluster[1..];
        } else if last_miss != 0
            && cluster.chars().next().map(|k| k as u16) == Some(last_miss)
            && xor_char(fb, clip, c, &"\\u{FFFD}", gs_latin).is_ok()
        {
            cluster = match cluster.char_indices().nth(1) {
                Some((i, _)) => &cluster[i..],
                None => "",
            };
        } else if let'''),
   (B, '''                // Advance string slice position by consuming one UTF-8 character
''', '''                // Advance string slice position by consuming one UTF-8 character
                last_miss = cluster.chars().next().map_or(0, |k| k as u16);
''')],
  rs='''
    let clip = ClipRect::full_screen();
    let (mut a, mut b) = (black(), black());
    paint(&mut a, clip, 10, 10, 0, GlyphStyle::Small, "\\u{F600}\\u{1F600}");
    paint(&mut b, clip, 10, 10, 0, GlyphStyle::Small, "\\u{FFFD}\\u{1F600}");
    assert!(same(&a, &b));
''')
