//! P15: the pages of a PDF become their visible characters, line by line, in reading order.
use crate::rt::*;
use hun_law::parser::pdf::*;
use hun_law::util::indentedline::*;

// ------------------------------------------------------------------ files
fn push_num(v: &mut Vec<u8>, n: usize, digits: usize) {
    let mut d = [b'0'; 10];
    let mut n = n;
    for i in (0..10).rev() {
        d[i] = b'0' + (n % 10) as u8;
        n /= 10;
    }
    v.extend_from_slice(&d[10 - digits..]);
}
#[derive(Default)]
struct Pdf {
    objs: Vec<Vec<u8>>,
}
impl Pdf {
    /// Adds an object and returns its number (below 100, always written with two digits).
    fn add(&mut self, o: &[u8]) -> usize {
        self.objs.push(o.to_vec());
        self.objs.len()
    }
    fn stream(&mut self, dict: &[u8], data: &[u8]) -> usize {
        let mut v: Vec<u8> = b"<<".to_vec();
        v.extend_from_slice(dict);
        v.extend_from_slice(b"/Length ");
        push_num(&mut v, data.len(), 4);
        v.extend_from_slice(b">>\nstream\n");
        v.extend_from_slice(data);
        v.extend_from_slice(b"\nendstream");
        self.add(&v)
    }
    fn write(&self) -> Vec<u8> {
        let mut v: Vec<u8> = b"%PDF-1.4\n".to_vec();
        let mut at = Vec::new();
        for (i, o) in self.objs.iter().enumerate() {
            at.push(v.len());
            push_num(&mut v, i + 1, 2);
            v.extend_from_slice(b" 0 obj\n");
            v.extend_from_slice(o);
            v.extend_from_slice(b"\nendobj\n");
        }
        let start = v.len();
        v.extend_from_slice(b"xref\n0 ");
        push_num(&mut v, self.objs.len() + 1, 2);
        v.extend_from_slice(b"\n0000000000 65535 f \n");
        for a in at {
            push_num(&mut v, a, 10);
            v.extend_from_slice(b" 00000 n \n");
        }
        v.extend_from_slice(b"trailer\n<</Size ");
        push_num(&mut v, self.objs.len() + 1, 2);
        v.extend_from_slice(b"/Root 01 0 R>>\nstartxref\n");
        push_num(&mut v, start, 5);
        v.extend_from_slice(b"\n%%EOF\n");
        v
    }
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
fn reference(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    push_num(&mut v, n, 2);
    v.extend_from_slice(b" 0 R");
    v
}
/// Widths of the codes 32..=38, in thousandths.
const WIDTHS: [[u16; 7]; 2] = [[250, 500, 1000, 250, 750, 500, 500], [500, 500, 1000, 250, 750, 500, 500]];
fn simple_font(name: &[u8], extra: &[u8], widths: &[u16]) -> Vec<u8> {
    let mut v = cat(&[b"<</Type/Font/Subtype/Type1/BaseFont/", name, extra, b"/FirstChar 32/LastChar "]);
    push_num(&mut v, 31 + widths.len(), 3);
    v.extend_from_slice(b"/Widths[");
    for w in widths {
        push_num(&mut v, *w as usize, 4);
        v.push(b' ');
    }
    v.extend_from_slice(b"]>>");
    v
}
/// A file with a page for every content stream, all with the same resources.
fn file(pages: &[(&[u8], &[u8])], mut p: Pdf) -> Vec<u8> {
    let mut kids = Vec::new();
    for (content, resources) in pages {
        let c = p.stream(b"", content);
        let k = p.add(&cat(&[b"<</Type/Page/Parent 02 0 R/MediaBox[0 0 600 800]/Contents ", &reference(c), b"/Resources<<", resources, b">>>>"]));
        kids.extend_from_slice(&reference(k));
        kids.push(b' ');
    }
    p.objs[0] = b"<</Type/Catalog/Pages 02 0 R>>".to_vec();
    let mut n = Vec::new();
    push_num(&mut n, pages.len(), 1);
    p.objs[1] = cat(&[b"<</Type/Pages/Kids[", &kids, b"]/Count ", &n, b">>"]);
    p.write()
}
/// Objects 1 and 2 are for `file`, 3 is the plain font /R, 4 the bold font /B, 5 a form /F that draws in its own bold font, 6 the same without own resources.
fn standard() -> Pdf {
    let mut p = Pdf::default();
    p.add(b"");
    p.add(b"");
    p.add(&simple_font(b"Plain", b"/Encoding/WinAnsiEncoding", &WIDTHS[0]));
    p.add(&simple_font(b"Heavy-Bold", b"/Encoding/WinAnsiEncoding", &WIDTHS[1]));
    p.stream(b"/Type/XObject/Subtype/Form/BBox[0 0 600 800]/Resources<</Font<</R 04 0 R>>>>", FORM);
    p.stream(b"/Type/XObject/Subtype/Form/BBox[0 0 600 800]", FORM);
    p
}
const FORM: &[u8] = b"BT /R 20 Tf 3 Tc 1 0 0 1 300 600 Tm (!!) Tj ET";
const RESOURCES: &[u8] = b"/Font<</R 03 0 R/B 04 0 R>>/XObject<</F 05 0 R/E 06 0 R>>/ExtGState<</G<</Font[04 0 R 10]>>/H<</LW 1>>>>";

// ------------------------------------------------------------------ what the file shows
#[derive(Clone)]
struct Glyph {
    x: f32,
    y: f32,
    w: f32,
    space: f32,
    bold: bool,
    c: char,
}
/// The lines of a page: text, position and boldness of every character, and justification.
struct Line {
    chars: Vec<(char, f32, bool)>,
    justified: bool,
}
fn layout(glyphs: &[Glyph], crop: &CropBox) -> Vec<Line> {
    let mut g: Vec<Glyph> = Vec::new();
    for x in glyphs {
        let inside = x.x >= crop.left && x.x <= crop.right && x.y >= crop.bottom && x.y <= crop.top;
        if x.c != ' ' && x.c != '\u{a0}' && inside {
            g.push(x.clone());
        }
    }
    let mut margin = 0.0f32;
    for x in &g {
        if x.x + x.w > margin {
            margin = x.x + x.w;
        }
    }
    let mut out: Vec<Line> = Vec::new();
    let mut last_top: Option<f32> = None;
    while !g.is_empty() {
        let mut top = g[0].y;
        for x in &g {
            if x.y > top {
                top = x.y;
            }
        }
        let (mut now, rest): (Vec<Glyph>, Vec<Glyph>) = g.into_iter().partition(|x| top - x.y < 0.5);
        g = rest;
        // insertion sort; characters on top of each other have no order
        for i in 1..now.len() {
            let mut k = i;
            while k > 0 && now[k].x <= now[k - 1].x {
                assume(now[k].x != now[k - 1].x);
                now.swap(k, k - 1);
                k -= 1;
            }
        }
        if let Some(t) = last_top {
            if t - top > 16.0 {
                out.push(Line { chars: vec![], justified: false });
            }
        }
        last_top = Some(top);
        let mut chars: Vec<(char, f32, bool)> = Vec::new();
        for i in 0..now.len() {
            if i > 0 {
                let edge = now[i - 1].x + now[i - 1].w + now[i - 1].space * 0.5;
                if now[i].x > edge || now[i].c == '„' {
                    chars.push((' ', edge, now[i].bold));
                }
            }
            chars.push((now[i].c, now[i].x, now[i].bold));
        }
        let e = &now[now.len() - 1];
        out.push(Line { chars, justified: e.x + e.w + e.space * 0.8 >= margin });
    }
    if out.is_empty() {
        out.push(Line { chars: vec![], justified: false });
    }
    out
}
fn compare(lines: &[IndentedLine], want: &[Line], positions: bool) {
    check(lines.len() == want.len(), 10);
    for (l, w) in lines.iter().zip(want) {
        let mut s = String::new();
        for c in &w.chars {
            s.push(c.0);
        }
        check(l.content() == s, 11);
        observe_str(l.content());
        check(l.is_empty() == w.chars.is_empty(), 12);
        if w.chars.is_empty() {
            continue;
        }
        check(l.is_justified() == w.justified, 13);
        for (i, c) in w.chars.iter().enumerate() {
            let p = l.slice(i as i64, Some(i as i64 + 1));
            let d = p.indent() - c.1 as f64;
            if positions {
                check(d < 0.001 && d > -0.001, 14);
            }
            check(p.is_bold() == c.2, 15);
        }
    }
}
fn expect_pages(f: &[u8], crop: CropBox, pages: &[&[Glyph]]) {
    expect(f, crop, pages, true)
}
fn expect(f: &[u8], crop: CropBox, pages: &[&[Glyph]], positions: bool) {
    match parse_pdf(f, crop.clone()) {
        Ok(p) => {
            check(p.len() == pages.len(), 2);
            for (a, b) in p.iter().zip(pages) {
                compare(&a.lines, &layout(b, &crop), positions);
            }
            cover(1);
        }
        Err(_e) => {
            #[cfg(feature = "native")]
            eprintln!("{_e:?}");
            check(false, 1)
        }
    }
}

// ------------------------------------------------------------------ drawing
/// The text state as the PDF reference defines it; matrices are scale and translation only.
#[derive(Clone)]
struct Text {
    font: usize,
    size: f32,
    char_space: f32,
    word_space: f32,
    scale: f32,
    leading: f32,
    rise: f32,
    m: (f32, f32, f32),
    line: (f32, f32, f32),
}
struct Draw {
    out: Vec<u8>,
    glyphs: Vec<Glyph>,
    s: Text,
    stack: Vec<Text>,
}
impl Draw {
    fn new() -> Draw {
        let m = (1.0, 0.0, 0.0);
        Draw { out: Vec::new(), glyphs: Vec::new(), s: Text { font: 0, size: 0.0, char_space: 0.0, word_space: 0.0, scale: 1.0, leading: 0.0, rise: 0.0, m, line: m }, stack: vec![] }
    }
    fn op(&mut self, o: &str) {
        self.out.extend_from_slice(o.as_bytes());
        self.out.push(b'\n');
    }
    fn font(&mut self, f: usize, size: f32) {
        self.op(match (f, size as usize) {
            (1, 10) => "/R 10 Tf",
            (1, _) => "/R 12 Tf",
            (_, 10) => "/B 10 Tf",
            _ => "/B 12 Tf",
        });
        self.s.font = f;
        self.s.size = size;
    }
    fn begin(&mut self) {
        self.op("BT");
        self.s.m = (1.0, 0.0, 0.0);
        self.s.line = self.s.m;
    }
    fn moved(&mut self, x: f32, y: f32) {
        let l = self.s.line;
        self.s.line = (l.0, l.1 + l.0 * x, l.2 + l.0 * y);
        self.s.m = self.s.line;
    }
    fn glyph(&mut self, code: u8, c: char) {
        let s = &self.s;
        let w0 = WIDTHS[s.font - 1][code as usize - 32] as f32 / 1000.0;
        let unit = s.scale * s.size * s.m.0;
        let space = WIDTHS[s.font - 1][0] as f32 / 1000.0;
        self.glyphs.push(Glyph { x: s.m.1, y: s.m.2 + s.rise * s.m.0, w: w0 * unit, space: space * unit, bold: s.font == 2, c });
        self.advance(w0, code);
    }
    fn advance(&mut self, w0: f32, code: u8) {
        let s = &mut self.s;
        let spacing = s.char_space + if code == 32 { s.word_space } else { 0.0 };
        s.m.1 += (w0 * s.size + spacing) * s.scale * s.m.0;
    }
    /// Shows codes between 32 and 38 (never brackets).
    fn literal(&mut self, codes: &[u8]) {
        self.out.push(b'(');
        for c in codes {
            self.out.push(*c);
            self.glyph(*c, *c as char);
        }
        self.out.push(b')');
    }
    fn show(&mut self, codes: &[u8]) {
        self.literal(codes);
        self.op(" Tj");
    }
    fn adjust(&mut self, by: f32, text: &str) {
        self.out.extend_from_slice(text.as_bytes());
        let s = &mut self.s;
        s.m.1 += -by * s.scale * s.size / 1000.0 * s.m.0;
    }
    fn newline(&mut self) {
        let l = self.s.leading;
        self.moved(0.0, -l);
    }
    fn form(&mut self) {
        // the text state is kept; what the form draws is known
        let s = Text { font: 2, size: 20.0, char_space: 3.0, m: (1.0, 300.0, 600.0), line: (1.0, 300.0, 600.0), ..self.s.clone() };
        let old = std::mem::replace(&mut self.s, s);
        self.glyph(b'!', '!');
        self.glyph(b'!', '!');
        self.s = old;
    }
    fn form_plain(&mut self) {
        let s = Text { font: 1, size: 20.0, char_space: 3.0, m: (1.0, 300.0, 600.0), line: (1.0, 300.0, 600.0), ..self.s.clone() };
        let old = std::mem::replace(&mut self.s, s);
        self.glyph(b'!', '!');
        self.glyph(b'!', '!');
        self.s = old;
    }
    /// One of the operators between text objects and in them.
    fn any(&mut self, k: usize) {
        match k {
            0 => self.font(1, 12.0),
            1 => self.font(2, 12.0),
            2 => {
                self.op("1 0 0 1 150 650 Tm");
                self.s.line = (1.0, 150.0, 650.0);
                self.s.m = self.s.line;
            }
            3 => {
                self.op("2 0 0 2 120 640 Tm");
                self.s.line = (2.0, 120.0, 640.0);
                self.s.m = self.s.line;
            }
            4 => {
                self.op("50 -12 Td");
                self.moved(50.0, -12.0);
            }
            5 => {
                self.op("8 -20 TD");
                self.s.leading = 20.0;
                self.moved(8.0, -20.0);
            }
            6 => {
                self.op("T*");
                self.newline();
            }
            7 => {
                self.op("14 TL");
                self.s.leading = 14.0;
            }
            8 => {
                self.op("2 Tc");
                self.s.char_space = 2.0;
            }
            9 => {
                self.op("6 Tw");
                self.s.word_space = 6.0;
            }
            10 => {
                self.op("50 Tz");
                self.s.scale = 0.5;
            }
            11 => {
                self.op("0.25 Ts");
                self.s.rise = 0.25;
            }
            12 => {
                self.op("-5 Ts");
                self.s.rise = -5.0;
            }
            13 => {
                self.op("ET q BT");
                self.stack.push(self.s.clone());
                self.s.m = (1.0, 0.0, 0.0);
                self.s.line = self.s.m;
            }
            14 => {
                assume(!self.stack.is_empty());
                self.op("ET Q BT");
                self.s = self.stack.pop().unwrap();
                self.s.m = (1.0, 0.0, 0.0);
                self.s.line = self.s.m;
            }
            15 => {
                self.op("ET /F Do BT");
                self.form();
                self.s.m = (1.0, 0.0, 0.0);
                self.s.line = self.s.m;
            }
            16 => {
                self.op("ET /E Do BT");
                self.form_plain();
                self.s.m = (1.0, 0.0, 0.0);
                self.s.line = self.s.m;
            }
            17 => {
                self.op("/G gs");
                self.s.font = 2;
                self.s.size = 10.0;
            }
            18 => self.op("/H gs 1 w 0 g"),
            19 => {
                self.newline();
                self.literal(b"#$");
                self.op(" '");
            }
            20 => {
                self.op("4 1");
                self.s.word_space = 4.0;
                self.s.char_space = 1.0;
                self.newline();
                self.literal(b"# $");
                self.op(" \"");
            }
            21 => {
                self.out.push(b'[');
                self.literal(b"!");
                self.adjust(-500.0, "-500");
                self.literal(b"#");
                self.adjust(250.0, "250");
                self.literal(b"!");
                self.op("] TJ");
            }
            22 => self.op("/P BMC"),
            23 => {
                self.op("ET BT");
                self.s.m = (1.0, 0.0, 0.0);
                self.s.line = self.s.m;
            }
            _ => self.show(b"! !"),
        }
    }
}
const OPS: usize = 25;
fn operators(n: usize) {
    let mut d = Draw::new();
    d.begin();
    d.font(1, 10.0);
    d.op("1 0 0 1 100 700 Tm");
    d.s.line = (1.0, 100.0, 700.0);
    d.s.m = d.s.line;
    d.show(b"\"%");
    for _ in 0..n {
        let k = pick(OPS);
        d.any(k);
    }
    d.show(b"\" %");
    d.op("ET");
    let f = file(&[(&d.out, RESOURCES)], standard());
    expect_pages(&f, CropBox::default(), &[&d.glyphs]);
}
fn operators1() { operators(1) }
fn operators2() { operators(2) }
fn operators3() { operators(3) }


// ------------------------------------------------------------------ codes and widths
/// Three codes of different widths.
fn codes() {
    let mut d = Draw::new();
    let mut f: Vec<u8> = b"BT /R 10 Tf 100 700 Td (".to_vec();
    let mut x = 100.0f32;
    for _ in 0..3 {
        let c = b" !\"#$%&"[pick(7)];
        f.push(c);
        let w = WIDTHS[0][c as usize - 32] as f32 / 1000.0;
        d.glyphs.push(Glyph { x, y: 700.0, w: w * 10.0, space: 2.5, bold: false, c: c as char });
        x += w * 10.0;
    }
    f.extend_from_slice(b") Tj ET");
    let f = file(&[(&f, RESOURCES)], standard());
    expect_pages(&f, CropBox::default(), &[&d.glyphs]);
}
/// Every code of the Windows encoding from 32 on, but for DEL and the soft hyphen.
fn win_ansi(b: u8) -> char {
    const HIGH: [char; 32] = [
        '€', '•', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', '•', 'Ž', '•', '•', '‘', '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', '•', 'ž', 'Ÿ',
    ];
    match b {
        128..=159 => HIGH[b as usize - 128],
        // Hungarian letters as old fonts encode them
        0xd5 => 'Ő',
        0xf5 => 'ő',
        0xdb => 'Ű',
        0xfb => 'ű',
        b => b as char,
    }
}
fn hex(b: u8) -> [u8; 2] {
    let d = |n: u8| if n < 10 { b'0' + n } else { b'a' + n - 10 };
    [d(b / 16), d(b % 16)]
}
fn encoding() {
    let b = u8();
    assume(b >= 32 && b != 127 && b != 0xad);
    let b = split(b as u64) as u8;
    // written in hexadecimal, drawn between two other characters
    let mut f: Vec<u8> = b"BT /R 10 Tf 100 700 Td (a) Tj 10 0 Td <".to_vec();
    f.extend_from_slice(&hex(b));
    f.extend_from_slice(b"> Tj 10 0 Td (b) Tj ET");
    let mut p = standard();
    p.objs[2] = simple_font(b"Plain", b"/Encoding/WinAnsiEncoding", &[500; 224]);
    let f = file(&[(&f, RESOURCES)], p);
    let c = win_ansi(b);
    let g = |x: f32, c: char| Glyph { x, y: 700.0, w: 5.0, space: 5.0, bold: false, c };
    expect_pages(&f, CropBox::default(), &[&[g(100.0, 'a'), g(110.0, c), g(120.0, 'b')]]);
}

// ------------------------------------------------------------------ other fonts
const CMAP: &[u8] = b"/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def 1 begincodespacerange <0000> <FFFF> endcodespacerange\n3 beginbfchar\n<0003> <0151>\n<0004> <00660069>\n<0464> <0171>\nendbfchar\n1 beginbfrange\n<0020> <0022> <0041>\nendbfrange\nendcmap end end";
fn cid_font(p: &mut Pdf, name: &[u8]) -> usize {
    let u = p.stream(b"", CMAP);
    let fd = p.add(&cat(&[b"<</Type/FontDescriptor/FontName/", name, b"/Flags 4/FontBBox[0 0 1000 1000]/ItalicAngle 0>>"]));
    let d = p.add(&cat(&[b"<</Type/Font/Subtype/CIDFontType2/BaseFont/", name, b"/FontDescriptor ", &reference(fd), b"/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>/DW 1000/W[3[500 500] 32 34 250]>>"]));
    p.add(&cat(&[b"<</Type/Font/Subtype/Type0/BaseFont/", name, b"/Encoding/Identity-H/DescendantFonts[", &reference(d), b"]/ToUnicode ", &reference(u), b">>"]))
}
/// Two byte codes: mapped to one or two characters, or not mapped at all.
fn two_bytes() {
    let mut p = standard();
    let bold = pick_bool();
    let c = cid_font(&mut p, if bold { b"Some,Bold" } else { b"Some" });
    let res = cat(&[b"/Font<</R ", &reference(c), b">>"]);
    let mut f: Vec<u8> = b"BT /R 10 Tf 100 700 Td <".to_vec();
    let mut g: Vec<Glyph> = Vec::new();
    let mut x = 100.0f32;
    let n = 1 + pick(3);
    for _ in 0..n {
        let (code, w, cs): (u16, f32, &[char]) = match pick(6) {
            0 => (3, 5.0, &['ő']),
            1 => (4, 5.0, &['f', 'i']),
            2 => (0x464, 10.0, &['ű']),
            3 => (0x21, 2.5, &['B']),
            4 => (0x6f, 10.0, &['o']),
            _ => (0xd5, 10.0, &['Ő']),
        };
        f.extend_from_slice(&hex((code >> 8) as u8));
        f.extend_from_slice(&hex(code as u8));
        let each = w / cs.len() as f32;
        for (i, c) in cs.iter().enumerate() {
            g.push(Glyph { x: x + i as f32 * each, y: 700.0, w: each, space: 2.5, bold, c: *c });
        }
        x += w;
    }
    f.extend_from_slice(b"> Tj ET");
    let f = file(&[(&f, &res)], p);
    expect_pages(&f, CropBox::default(), &[&g]);
}
/// A font that names its characters, with other base encodings, with and without a unicode map.
fn differences() {
    let mut p = standard();
    let u = p.stream(b"", b"begincmap 1 beginbfchar\n<21> <0071>\nendbfchar endcmap");
    let mapped = pick_bool();
    let base = pick(3);
    let extra = cat(&[
        b"/Encoding<<",
        [b"".as_slice(), b"/BaseEncoding/WinAnsiEncoding", b"/BaseEncoding/MacRomanEncoding"][base],
        b"/Differences[33/ohungarumlaut/fi 36/uhungarumlaut]>>",
        if mapped { b"/ToUnicode " } else { b"" },
        &if mapped { reference(u) } else { vec![] },
    ]);
    let code = pick(4);
    let c = match code {
        0 => if mapped { 'q' } else { 'ő' },
        1 => 'ﬁ',
        2 => '#',
        _ => 'ű',
    };
    p.objs[2] = simple_font(b"Plain", &extra, &WIDTHS[0]);
    let f: Vec<u8> = cat(&[b"BT /R 10 Tf 100 700 Td <", &hex(33 + code as u8), b"> Tj ET"]);
    let f = file(&[(&f, RESOURCES)], p);
    let _ = base;
    if base == 0 && code == 2 {
        check(parse_pdf(&f, CropBox::default()).is_err(), 3);
        return cover(2);
    }
    expect_pages(&f, CropBox::default(), &[&[Glyph { x: 100.0, y: 700.0, w: WIDTHS[0][1 + code] as f32 / 100.0, space: 2.5, bold: false, c }]]);
}
/// Fonts without a usable width of space.
fn space_width() {
    let mut p = standard();
    let (w, space) = [(0u16, 2.5f32), (1000, 2.5), (300, 3.0), (200, 2.0)][pick(4)];
    p.objs[2] = simple_font(b"Plain", b"/Encoding/WinAnsiEncoding", &[w, 500]);
    let (name, bold): (&[u8], bool) = [(b"Plain".as_slice(), false), (b"ABCDEF+Some-Bold", true), (b"semibold", true), (b"BOLD", false), (b"Italic", false)][pick(5)];
    p.objs[3] = simple_font(name, b"/Encoding/WinAnsiEncoding", &[w, 500]);
    let gap = below(16);
    // the gap is a whole number of thousandths times 25
    let mut f: Vec<u8> = b"BT /B 10 Tf 100 700 Td [(!)-".to_vec();
    let gap = split(gap as u64) as usize;
    push_num(&mut f, gap * 25, 3);
    f.extend_from_slice(b"(!)] TJ ET");
    let f = file(&[(&f, RESOURCES)], p);
    let g = |x: f32| Glyph { x, y: 700.0, w: 5.0, space, bold, c: '!' };
    expect_pages(&f, CropBox::default(), &[&[g(100.0), g(105.0 + gap as f32 * 0.25)]]);
}

// ------------------------------------------------------------------ replaced text
fn actual_text() {
    let mut d = Draw::new();
    d.begin();
    d.font(1 + pick(2), 10.0);
    d.op("100 700 Td");
    d.moved(100.0, 700.0);
    if pick_bool() {
        d.show(b"!");
    }
    let (src, text): (&str, &[char]) = [("(A)", ['A'].as_slice()), ("(AB)", &['A', 'B']), ("<FEFF0151>", &['ő']), ("()", &[]), ("( )", &[' '])][pick(5)];
    let span = pick(3);
    d.op(match span {
        0 => "/Span <</ActualText ",
        1 => "/Artifact <</ActualText ",
        _ => "/Span <</Lang ",
    });
    d.op(src);
    d.op(">> BDC");
    let shown = [b"".as_slice(), b"#", b"\"#"][pick(3)];
    let kept = d.glyphs.len();
    d.show(shown);
    if span == 0 {
        // the text stands in the place of what is shown
        let hidden: Vec<Glyph> = d.glyphs.split_off(kept);
        if let Some(a) = hidden.first() {
            let z = &hidden[hidden.len() - 1];
            let each = (z.x + z.w - a.x) / text.len() as f32;
            for (i, c) in text.iter().enumerate() {
                d.glyphs.push(Glyph { x: a.x + i as f32 * each, w: each, c: *c, ..a.clone() });
            }
        }
    }
    d.op("EMC");
    if pick_bool() {
        d.op("/P BMC");
        d.show(b"!");
        d.op("EMC");
    }
    d.show(b" !");
    d.op("ET");
    let f = file(&[(&d.out, RESOURCES)], standard());
    expect_pages(&f, CropBox::default(), &[&d.glyphs]);
}

// ------------------------------------------------------------------ lines
/// Three characters in any of 4 columns and 5 heights, in any order.
fn placed(n: usize) {
    const X: [(&[u8], f32); 4] = [(b"100", 100.0), (b"105", 105.0), (b"107", 107.0), (b"150", 150.0)];
    const Y: [(&[u8], f32); 6] = [(b"700", 700.0), (b"699.75", 699.75), (b"699.5", 699.5), (b"684", 684.0), (b"683.5", 683.5), (b"600", 600.0)];
    let mut f: Vec<u8> = b"BT /R 10 Tf ".to_vec();
    let mut g = Vec::new();
    for i in 0..n {
        let (x, y) = (&X[pick(4)], &Y[pick(6)]);
        let c = b'!' + i as u8;
        f.extend_from_slice(&cat(&[b"1 0 0 1 ", x.0, b" ", y.0, b" Tm (", &[c], b") Tj "]));
        g.push(Glyph { x: x.1, y: y.1, w: WIDTHS[0][1 + i] as f32 / 100.0, space: 2.5, bold: false, c: c as char });
    }
    f.extend_from_slice(b"ET");
    let f = file(&[(&f, RESOURCES)], standard());
    expect_pages(&f, CropBox::default(), &[&g]);
}
/// Characters side by side whose heights drift; the first one of a line decides about the line.
fn drift() {
    const X: [(&[u8], f32); 4] = [(b"140", 140.0), (b"100", 100.0), (b"120", 120.0), (b"160", 160.0)];
    const Y: [(&[u8], f32); 5] = [(b"700", 700.0), (b"699.75", 699.75), (b"699.625", 699.625), (b"699.25", 699.25), (b"698.875", 698.875)];
    let mut f: Vec<u8> = b"BT /R 10 Tf ".to_vec();
    let mut g = Vec::new();
    for i in 0..4 {
        let (x, y) = (&X[i], &Y[pick(5)]);
        let c = b'!' + i as u8;
        f.extend_from_slice(&cat(&[b"1 0 0 1 ", x.0, b" ", y.0, b" Tm (", &[c], b") Tj "]));
        g.push(Glyph { x: x.1, y: y.1, w: WIDTHS[0][1 + i] as f32 / 100.0, space: 2.5, bold: false, c: c as char });
    }
    f.extend_from_slice(b"ET");
    let f = file(&[(&f, RESOURCES)], standard());
    expect_pages(&f, CropBox::default(), &[&g]);
}
/// Two symbolic decimal digits after the given one.
fn digits(v: &mut Vec<u8>, first: u8, second: Option<u8>) -> f32 {
    let a = second.unwrap_or_else(|| u8());
    let b = u8();
    assume(a < 10);
    assume(b < 10);
    v.extend_from_slice(&[b'0' + first, b'0' + a, b'0' + b]);
    (first as i32 * 100 + a as i32 * 10 + b as i32) as f32
}
/// A character and another at any whole coordinates of a square around it.
fn anywhere(second: Option<u8>) {
    let mut f: Vec<u8> = b"BT /R 10 Tf ".to_vec();
    let mut g = Vec::new();
    for i in 0..2 {
        f.extend_from_slice(b"1 0 0 1 ");
        let (x, y) = if i == 0 {
            f.extend_from_slice(b"150 650");
            (150.0, 650.0)
        } else {
            let x = digits(&mut f, 1, None);
            f.push(b' ');
            (x, digits(&mut f, 6, second))
        };
        let c = b'!' + i as u8;
        f.extend_from_slice(&cat(&[b" Tm (", &[c], b") Tj "]));
        g.push(Glyph { x, y, w: WIDTHS[0][1 + i] as f32 / 100.0, space: 2.5, bold: false, c: c as char });
    }
    f.extend_from_slice(b"ET");
    let f = file(&[(&f, RESOURCES)], standard());
    // where they are is expensive to decide for symbolic coordinates
    expect(&f, CropBox::default(), &[&g], second.is_none());
}
/// Two characters in a box of any size.
fn boxed() {
    let n = || -> f32 {
        let v = u16();
        assume(v < 2048);
        v as f32 * 0.5
    };
    let crop = CropBox { bottom: n(), left: n(), top: n(), right: n() };
    let f: &[u8] = b"BT /R 10 Tf 1 0 0 1 100 700 Tm (!) Tj 1 0 0 1 150 650 Tm (\") Tj ET";
    let g = |x: f32, y: f32, w: f32, c: char| Glyph { x, y, w, space: 2.5, bold: false, c };
    expect_pages(&file(&[(f, RESOURCES)], standard()), crop, &[&[g(100.0, 700.0, 5.0, '!'), g(150.0, 650.0, 10.0, '"')]]);
}
fn anywhere3() { anywhere(None) }
fn anywhere2() { anywhere(Some(4)) }
fn anywhere1() { anywhere(Some(5)) }
fn placed2() { placed(2) }
fn placed3() { placed(3) }
/// Characters outside of the box are not there, nor do they move the margin.
fn cropped() {
    let crop = match pick(3) {
        0 => CropBox { bottom: 100.0, left: 50.0, top: 700.0, right: 500.0 },
        1 => CropBox { bottom: 0.0, left: 0.0, top: 100.0, right: 100.0 },
        _ => CropBox::default(),
    };
    let mut f: Vec<u8> = b"BT /B 10 Tf ".to_vec();
    let mut g = Vec::new();
    const X: [(&[u8], f32); 5] = [(b"49.5", 49.5), (b"50", 50.0), (b"100", 100.0), (b"500", 500.0), (b"500.5", 500.5)];
    const Y: [(&[u8], f32); 5] = [(b"99.5", 99.5), (b"100", 100.0), (b"400", 400.0), (b"700", 700.0), (b"700.5", 700.5)];
    for i in 0..2 {
        // the second one is always to the right
        let (x, y) = if i == 0 { (&X[pick(5)], &Y[pick(5)]) } else { (&X[3 + pick(2)], &Y[1 + 2 * pick(2)]) };
        let c = b'!' + i as u8;
        f.extend_from_slice(&cat(&[b"1 0 0 1 ", x.0, b" ", y.0, b" Tm (", &[c], b") Tj "]));
        g.push(Glyph { x: x.1, y: y.1, w: WIDTHS[1][1 + i] as f32 / 100.0, space: 5.0, bold: true, c: c as char });
    }
    f.extend_from_slice(b"ET");
    let f = file(&[(&f, RESOURCES)], standard());
    expect_pages(&f, crop, &[&g]);
}
/// Quotes are always separated from what stands before them.
fn quotes() {
    let mut f: Vec<u8> = b"BT /R 10 Tf 100 700 Td [".to_vec();
    let mut g: Vec<Glyph> = Vec::new();
    let mut x = 100.0f32;
    for _ in 0..3 {
        let (code, c) = [(b"<84>", '„'), (b"<94>", '”'), (b"<21>", '!')][pick(3)];
        f.extend_from_slice(code);
        g.push(Glyph { x, y: 700.0, w: 5.0, space: 5.0, bold: false, c });
        x += 5.0;
        if pick_bool() {
            f.extend_from_slice(b"-300 ");
            x += 3.0;
        }
    }
    f.extend_from_slice(b"] TJ ET");
    let mut p = standard();
    p.objs[2] = simple_font(b"Plain", b"/Encoding/WinAnsiEncoding", &[500; 224]);
    let f = file(&[(&f, RESOURCES)], p);
    expect_pages(&f, CropBox::default(), &[&g]);
}

// ------------------------------------------------------------------ pages
/// Pages do not depend on each other: same font names, other fonts.
fn pages() {
    let n = pick(4);
    let mut contents: Vec<(Vec<u8>, &[u8])> = Vec::new();
    let mut all: Vec<Vec<Glyph>> = Vec::new();
    let names: [&[u8]; 2] = [b"/Font<</R 03 0 R/B 04 0 R>>", b"/Font<</R 04 0 R/B 03 0 R>>"];
    for _ in 0..n {
        let mut d = Draw::new();
        let swapped = pick(2);
        let kind = pick(3);
        if kind > 0 {
            d.begin();
            d.op("/R 10 Tf 100 700 Td");
            d.moved(100.0, 700.0);
            d.s.font = 1 + swapped;
            d.s.size = 10.0;
            d.show(if kind == 1 { b"! !" } else { b"#" });
            if kind == 2 {
                d.op("q 5 Tc");
            }
            d.op("ET");
        }
        contents.push((d.out, names[swapped]));
        all.push(d.glyphs);
    }
    let c: Vec<(&[u8], &[u8])> = contents.iter().map(|x| (x.0.as_slice(), x.1)).collect();
    let g: Vec<&[Glyph]> = all.iter().map(|x| x.as_slice()).collect();
    let f = file(&c, standard());
    expect_pages(&f, CropBox::default(), &g);
}
/// What makes no sense is an error, not a panic and not a page.
fn nonsense() {
    let (content, ok): (&[u8], bool) = [
        (b"BT 100 700 Td (!) Tj ET".as_slice(), false),
        (b"BT /X 10 Tf ET", false),
        (b"Q", false),
        (b"EMC", false),
        (b"q Q Q", false),
        (b"/X Do", false),
        (b"/X gs", false),
        (b"/R 10 Tf q Q BT 100 700 Td (!) Tj ET", true),
        (b"BT 100 700 Td () Tj ET /R 10 Tf BT 100 700 Td (!) Tj ET", false),
        (b"q /R 10 Tf Q BT 100 700 Td (!) Tj ET", false),
        (b"q /R 10 Tf BT 100 700 Td (!) Tj ET", true),
        (b"/P BMC q /R 10 Tf BT 100 700 Td (!) Tj ET", true),
    ][pick(12)];
    let f = file(&[(content, RESOURCES)], standard());
    if ok {
        expect_pages(&f, CropBox::default(), &[&[Glyph { x: 100.0, y: 700.0, w: 5.0, space: 2.5, bold: false, c: '!' }]]);
    } else {
        check(parse_pdf(&f, CropBox::default()).is_err(), 3);
        cover(2);
    }
}

entries! {
    vp_p15_ops1 = operators1;
    vp_p15_ops2 = operators2;
    vp_p15_ops3 = operators3;
    vp_p15_codes = codes;
    vp_p15_encoding = encoding;
    vp_p15_two_bytes = two_bytes;
    vp_p15_differences = differences;
    vp_p15_space_width = space_width;
    vp_p15_actual_text = actual_text;
    vp_p15_anywhere1 = anywhere1;
    vp_p15_anywhere2 = anywhere2;
    vp_p15_anywhere3 = anywhere3;
    vp_p15_boxed = boxed;
    vp_p15_drift = drift;
    vp_p15_placed2 = placed2;
    vp_p15_placed3 = placed3;
    vp_p15_cropped = cropped;
    vp_p15_quotes = quotes;
    vp_p15_pages = pages;
    vp_p15_nonsense = nonsense;
}
