use blitstr::*;

#[path = "/repo/wasm_demo/src/lib.rs"]
#[allow(unused_attributes)]
mod wasm;

fn style(k: usize) -> GlyphStyle {
    match k {
        0 => GlyphStyle::Small,
        1 => GlyphStyle::Regular,
        _ => GlyphStyle::Bold,
    }
}
fn code(s: GlyphStyle) -> usize {
    match s {
        GlyphStyle::Small => 0,
        GlyphStyle::Regular => 1,
        GlyphStyle::Bold => 2,
    }
}

#[no_mangle]
pub extern "C-unwind" fn h_paint(fb: &mut FrBuf, clip: &[usize; 4], c: &mut [usize; 3], st: usize, p: *const u8, n: usize) {
    let s = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) };
    let r = ClipRect { min: Pt { x: clip[0], y: clip[1] }, max: Pt { x: clip[2], y: clip[3] } };
    let mut k = Cursor { pt: Pt { x: c[0], y: c[1] }, line_height: c[2] };
    paint_str(fb, r, &mut k, style(st), s);
    c[0] = k.pt.x;
    c[1] = k.pt.y;
    c[2] = k.line_height;
}
#[no_mangle]
pub extern "C-unwind" fn h_clear(fb: &mut FrBuf, clip: &[usize; 4]) {
    clear_region(fb, ClipRect { min: Pt { x: clip[0], y: clip[1] }, max: Pt { x: clip[2], y: clip[3] } });
}
fn put(r: ClipRect, o: &mut [usize; 4]) {
    o[0] = r.min.x;
    o[1] = r.min.y;
    o[2] = r.max.x;
    o[3] = r.max.y;
}
#[no_mangle]
pub extern "C-unwind" fn h_rect_new(a: usize, b: usize, c: usize, d: usize, o: &mut [usize; 4]) {
    put(ClipRect::new(a, b, c, d), o);
}
#[no_mangle]
pub extern "C-unwind" fn h_rect_full(o: &mut [usize; 4]) {
    put(ClipRect::full_screen(), o);
}
#[no_mangle]
pub extern "C-unwind" fn h_rect_padded(o: &mut [usize; 4]) {
    put(ClipRect::padded_screen(), o);
}
#[no_mangle]
pub extern "C-unwind" fn h_cursor_tl(r: &[usize; 4], o: &mut [usize; 3]) {
    let c = Cursor::from_top_left_of(ClipRect { min: Pt { x: r[0], y: r[1] }, max: Pt { x: r[2], y: r[3] } });
    o[0] = c.pt.x;
    o[1] = c.pt.y;
    o[2] = c.line_height;
}
#[no_mangle]
pub extern "C-unwind" fn h_cursor_new(x: usize, y: usize, h: usize, o: &mut [usize; 3]) {
    let c = Cursor::new(x, y, h);
    o[0] = c.pt.x;
    o[1] = c.pt.y;
    o[2] = c.line_height;
}
#[no_mangle]
pub extern "C-unwind" fn h_pt_new(x: usize, y: usize, o: &mut [usize; 2]) {
    let p = Pt::new(x, y);
    o[0] = p.x;
    o[1] = p.y;
}
/// 0 less, 1 equal, 2 greater, 3 unordered
#[no_mangle]
pub extern "C-unwind" fn h_pt_cmp(a: usize, b: usize, c: usize, d: usize) -> u32 {
    let (p, q) = (Pt { x: a, y: b }, Pt { x: c, y: d });
    match p.partial_cmp(&q) {
        Some(core::cmp::Ordering::Less) => 0,
        Some(core::cmp::Ordering::Equal) => 1,
        Some(core::cmp::Ordering::Greater) => 2,
        None => 3,
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_style_from(n: usize) -> usize {
    code(GlyphStyle::from(n))
}
#[no_mangle]
pub extern "C-unwind" fn h_style_into(n: usize) -> usize {
    style(n).into()
}
#[no_mangle]
pub extern "C-unwind" fn h_hint(n: usize) -> usize {
    glyph_to_height_hint(style(n))
}
#[no_mangle]
pub extern "C-unwind" fn h_new_fb(o: &mut FrBuf) {
    *o = new_fr_buf();
}
#[no_mangle]
pub extern "C-unwind" fn h_demo(fb: &mut FrBuf, k: usize) {
    match k {
        0 => demo::sample_text(fb),
        1 => demo::short_greeting(fb),
        _ => demo::goose_poem(fb),
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_wasm_init() {
    wasm::init()
}
#[no_mangle]
pub extern "C-unwind" fn h_wasm_ptr() -> *const u32 {
    wasm::frame_buf_ptr()
}
#[no_mangle]
pub extern "C-unwind" fn h_hash(p: *const u8, n: usize, seed: u32, limit: u32, o: &mut [usize; 2]) {
    let s = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) };
    let (h, b) = blitstr::verif_hooks::grapheme_cluster(s, seed, limit);
    o[0] = h as usize;
    o[1] = b;
}
/// bits: ==, !=, <, <=, >, >=
#[no_mangle]
pub extern "C-unwind" fn h_pt_ops(a: usize, b: usize, c: usize, d: usize) -> usize {
    let (p, q) = (Pt { x: a, y: b }, Pt { x: c, y: d });
    (p == q) as usize | ((p != q) as usize) << 1 | ((p < q) as usize) << 2 | ((p <= q) as usize) << 3 | ((p > q) as usize) << 4 | ((p >= q) as usize) << 5
}
#[no_mangle]
pub extern "C-unwind" fn h_rect_eq(a: &[usize; 4], b: &[usize; 4]) -> usize {
    let r = |v: &[usize; 4]| ClipRect { min: Pt { x: v[0], y: v[1] }, max: Pt { x: v[2], y: v[3] } };
    (r(a) == r(b)) as usize
}
#[no_mangle]
pub extern "C-unwind" fn h_cursor_eq(a: &[usize; 3], b: &[usize; 3]) -> usize {
    let r = |v: &[usize; 3]| Cursor { pt: Pt { x: v[0], y: v[1] }, line_height: v[2] };
    (r(a) == r(b)) as usize
}
#[no_mangle]
pub extern "C-unwind" fn h_style_round(n: usize) -> usize {
    let k: usize = style(n).into();
    code(GlyphStyle::from(k))
}
#[no_mangle]
pub extern "C-unwind" fn h_fbhash(p: *const u32, n: usize, seed: u32) -> u32 {
    blitstr::verif_hooks::frame_buffer(unsafe { core::slice::from_raw_parts(p, n) }, seed)
}
