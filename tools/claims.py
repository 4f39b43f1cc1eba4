CLAIMS.update({
 'C06': 'One symbolic character (every Unicode scalar value; quick leaves out the hanzi blocks) in 14 contexts of neighbouring text: every path on which no font table lookup succeeds paints exactly the replacement character; every pinned character is compared with the reference; unsupported characters late in texts that fill the screen.',
 'C07': 'One symbolic character per UTF-8 length and style, all scalar values: the set of characters that reach a font table entry equals the source repertoire, each is drawn as its own glyph, every other as U+FFFD.',
 'C08': 'Every multi-codepoint cluster of the font sources (quick: a third of the emoji ones), alone and followed by a symbolic character.',
 'C09': 'First character concrete (quick: every Latin and ASCII one, a spread over the other blocks), second symbolic over all scalar values: a lookup merges them only if the sources list the cluster; every ASCII character followed by 2 and by 11 symbolic ASCII characters (up to its first glyph); ASCII texts that fill the screen. 472 hash collisions are listed as known findings.',
 'C14': 'clear_region for symbolic frame buffer contents and symbolic rectangle edges, case-split over word positions: every bit of every word.',
 'C15': 'All rectangles (64-bit corners) that are empty, reversed or off screen: no store, no panic.',
 'C16': 'All 64-bit corner coordinates: normalisation, containment, cursor and point ordering.',
 'C17': 'All style numbers; height hints related to the line spacing of the painting code for symbolic cursors.',
 'C19': 'Symbolic initial frame buffer: every word after each demo screen is a constant; margins; WebAssembly initialisation.',
 'C10': 'Emoji and hanzi glyph shapes painted in the three styles from symbolic cursors and clip rectangles: the three runs are compared path by path; every emoji and hanzi cluster at a fixed position in all styles; every Latin cluster in its own style against the sources.',
 'C11': 'Every precomposed letter of the Latin fonts with a canonical decomposition, all three styles, symbolic cursor, line height and clip rectangle: the run on the letter and the run on its decomposition are compared path by path.',
 'C12': 'Texts of two and three clusters of 14 kinds and of random clusters, every split, symbolic cursor, line height and clip rectangle: one call and several calls compared path by path (pixels and cursor); texts that fill the screen (up to 1273 clusters), fixed place, symbolic frame buffer.',
 'C18': 'Every glyph shape with a symbolic bitmap from a symbolic state, followed by a line break: the glyph stays within its cell (columns up to the new cursor, rows above the next line), line ends never move up; disjointness for whole texts follows by induction.',
})
SG = 'bounded symbolic execution of the generator\'s Go SSA form (golang.org/x/tools/go/ssa), obligations decided by an SMT solver (Z3 behind a sound linear pre-solver), counterexamples replayed in the compiled generator'
CLAIMS.update({
 'C20': (SG, 'Every bitmap of width and height 1..32, all pixels and the offset symbolic; a sample of shapes end to end through the blitter\'s LLVM IR. Trusted: go/ssa, lib/goex.py (replayed natively).'),
 'C21': (SG, 'Every pixel of cells up to 7 px square (thorough 9) for each trim policy; at 24, 30, 32 px a seeded sample of bounding boxes with every pixel inside symbolic; the limits for every row below 400 and column below 64. Trusted: go/ssa, lib/goex.py.'),
 'C22': (SG + '; the library\'s hash from its LLVM IR', 'All UTF-8 length combinations of up to 5 codepoints (thorough 6) and a sample up to 8, single-width strings of 17 to 257; all codepoint values, seeds, limits. Trusted: go/ssa, lib/goex.py.'),
 'C23': (SG, 'Every 32-bit codepoint for Block; index histories of up to 4 entries (thorough 6) with arbitrary distinct hashes, of 7 to 40 (thorough 90) with one or two arbitrary ones. Trusted: go/ssa, lib/goex.py.'),
 'C26': (SG, 'Committed sheet geometries (and others: cells of 1..8 px, gutters 0..3, borders 0..9), corner and sampled cells (thorough: every cell of 5 rows), symbolic pixels in and around the cell; refusal of out-of-grid cells. Trusted: go/ssa, lib/goex.py, the stand-in image.'),
})
CLAIMS['C24'] = ('bounded symbolic execution of the JavaScript syntax tree (parsed by the TypeScript compiler), obligations decided by canonical form or Z3, counterexamples replayed under node',
 'Every frame buffer (one symbolic variable per byte), every pixel, both loading paths, two addresses of the frame buffer (thorough: ten). Trusted: lib/jsex.py (replayed under node on every run), the stand-ins for canvas, fetch and WebAssembly.')
CLAIMS.update({
 'C27': 'Every word and the seed symbolic, 0..299 words (thorough 2199), the whole frame buffer of 5896 words and other sizes: the result is the same term as the reference; that the reference tells one-word changes apart is proved by inverting its steps (bit-vector lemmas).',
 'C28': (SG, 'Every word value and hash value, glyphs of 1..33 words (thorough 139), up to 95 glyphs, aliases. The text/template around the arrays is outside. Trusted: go/ssa, lib/goex.py, lib/gotext.py (models of fmt and strings; replayed natively).'),
 'C29': (SG, 'Every digit, comment character and column count, clusters of up to 4 codepoints (and leading zeros up to 64 digits), files of up to 5 lines (thorough 7). Trusted: go/ssa, lib/goex.py, lib/gotext.py (models of strings and strconv; replayed natively).'),
})
