//! Generators.
use crate::dicts::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// Characters of every script and width the dictionaries and filters distinguish.
pub const POOL: &[char] = &[
    'あ', 'い', 'う', 'か', 'が', 'さ', 'ざ', 'は', 'ば', 'ぱ', 'ん', 'を', 'ゝ', 'ゞ', 'っ', 'ア', 'イ', 'ガ',
    'カ', 'テ', 'ト', 'ー', 'ヴ', 'ヽ', 'ヾ', 'ヵ', '東', '京', '都', '大', '学', '一', '二', '三', '十', '百', '千',
    '万', '〇', '々', '龥', '龯', '龰', '䷿', '一', '\u{9FFF}', '䶵', '\u{F900}', '𠮷', 'a', 'b', 'Z', 'Ä', 'ß', 'İ', 'é', '1', '2',
    '９', ' ', '　', 'Ａ', 'ｂ', 'ｶ', 'ﾞ', 'ﾊ', 'ﾟ', '한', '국', '어', 'ㄱ', 'ㅏ', '你', '好', '😀', '👨', '\u{200D}',
    '\u{3099}', '\u{309A}', '\u{301}', '・', '！', '—', '―', '〜', '～', '.', ',', '"', '\u{10FFFF}', '\u{FEFF}',
    '\u{FFFD}', '\u{7F}', '\u{80}', '㍿', '㌔', '①', 'ﬁ', '。', '、', '\n', '\t', '\r', '\'', '\\', '#',
];
pub const DELIMS: &[char] = &['。', '、', '\n', '\t'];

pub fn pool_char() -> impl Strategy<Value = char> + Clone {
    (0..POOL.len()).prop_map(|i| POOL[i])
}

/// Any scalar value except NUL (tested on its own), biased to the pool.
pub fn any_char() -> BoxedStrategy<char> {
    prop_oneof![
        6 => pool_char(),
        1 => any::<char>(),
        1 => (0x3041u32..0x30FF).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0x4E00u32..0xA000).prop_map(|c| char::from_u32(c).unwrap()),
    ]
    .boxed()
}

pub fn any_text(max: usize) -> BoxedStrategy<String> {
    vec(any_char(), 0..=max).prop_map(|v| v.into_iter().collect()).boxed()
}

pub fn cost() -> BoxedStrategy<i16> {
    prop_oneof![
        4 => -3i16..=3,
        3 => -200i16..=200,
        2 => -12000i16..=12000,
        1 => prop_oneof![Just(i16::MIN), Just(i16::MAX), Just(0), any::<i16>()],
    ]
    .boxed()
}

#[derive(Clone, Debug)]
pub enum Piece {
    Word(u16),
    User(u16),
    Alpha(u16),
    Any(char),
    Delim(u8),
    Rep(u16, u8),
    /// another character with the same low 16 or low 8 bits as one of the alphabet
    Alias(u16, u8),
}

pub fn piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        6 => any::<u16>().prop_map(Piece::Word),
        2 => any::<u16>().prop_map(Piece::User),
        7 => any::<u16>().prop_map(Piece::Alpha),
        1 => prop_oneof![15 => any_char(), 1 => Just('\0')].prop_map(Piece::Any),
        1 => any::<u8>().prop_map(Piece::Delim),
        1 => (any::<u16>(), 2u8..10).prop_map(|(a, n)| Piece::Rep(a, n)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, n)| Piece::Alias(a, n)),
    ]
    .boxed()
}

/// A character that code keeping only part of the code point would take for `c`.
pub fn alias(c: char, k: u8) -> char {
    let u = c as u32;
    let v = match k % 4 {
        0 | 1 => (u & 0xFFFF) | (((k as u32 >> 2) % 16 + 1) << 16),
        2 => u ^ ((k as u32 >> 2) << 8),
        _ => u ^ 0x100,
    };
    char::from_u32(v).unwrap_or(c)
}

pub fn render(ps: &[Piece], alpha: &[char], words: &[&str], user: &[&str]) -> String {
    let mut s = String::new();
    for p in ps {
        match p {
            Piece::Word(i) if !words.is_empty() => s.push_str(words[*i as usize * words.len() >> 16]),
            Piece::User(i) if !user.is_empty() => s.push_str(user[*i as usize * user.len() >> 16]),
            Piece::Word(i) | Piece::User(i) | Piece::Alpha(i) => s.push(alpha[*i as usize * alpha.len() >> 16]),
            Piece::Any(c) => s.push(*c),
            Piece::Delim(d) => s.push(DELIMS[*d as usize % DELIMS.len()]),
            Piece::Rep(i, n) => {
                let c = alpha[*i as usize * alpha.len() >> 16];
                s.extend(std::iter::repeat(c).take(*n as usize))
            }
            Piece::Alias(i, k) => s.push(alias(alpha[*i as usize * alpha.len() >> 16], *k)),
        }
    }
    s
}

pub fn kind() -> BoxedStrategy<Kind> {
    (0..KINDS.len()).prop_map(|i| KINDS[i]).boxed()
}

/// Category templates: name and the ranges usually given to it.
const TEMPLATES: &[(&str, &[(u16, u16)])] = &[
    ("SPACE", &[(0x20, 0x20), (0x09, 0x0D), (0x3000, 0x3000)]),
    ("KANJI", &[(0x2E80, 0x2FD5), (0x3005, 0x3007), (0x3400, 0x4DBF), (0x4E00, 0x9FA5), (0xF900, 0xFA2D)]),
    ("SYMBOL", &[(0x21, 0x2F), (0x3A, 0x40), (0x3001, 0x3004), (0x2000, 0x206F), (0xFF01, 0xFF0F)]),
    ("NUMERIC", &[(0x30, 0x39), (0xFF10, 0xFF19)]),
    ("ALPHA", &[(0x41, 0x5A), (0x61, 0x7A), (0xC0, 0x17F), (0xFF21, 0xFF3A), (0xFF41, 0xFF5A)]),
    ("HIRAGANA", &[(0x3041, 0x309F)]),
    ("KATAKANA", &[(0x30A1, 0x30FF), (0xFF66, 0xFF9F)]),
    ("KANJINUMERIC", &[(0x3007, 0x3007), (0x4E00, 0x4E00), (0x4E8C, 0x4E8C), (0x4E09, 0x4E09), (0x5341, 0x5341)]),
    ("HANGUL", &[(0xAC00, 0xD7A3), (0x1100, 0x11FF), (0x3131, 0x318E)]),
    ("GREEK", &[(0x374, 0x3FB)]),
];

#[derive(Clone, Debug)]
struct RawRow {
    surf: Vec<u16>,
    left: u16,
    right: u16,
    cost: i16,
    det: u16,
}

fn raw_row(maxlen: usize) -> BoxedStrategy<RawRow> {
    (
        prop_oneof![5 => vec(any::<u16>(), 1..=3usize), 2 => vec(any::<u16>(), 1..=maxlen)],
        any::<u16>(),
        any::<u16>(),
        cost(),
        any::<u16>(),
    )
        .prop_map(|(surf, left, right, cost, det)| RawRow { surf, left, right, cost, det })
        .boxed()
}

fn scale(i: u16, n: usize) -> usize {
    (i as usize * n) >> 16
}

/// words used as detail values
const DETAIL_WORDS: &[&str] =
    &["名詞", "動詞", "*", "一般", "カナ", "よみ", "a b", "x\"y", "p,q", "", "―～", "한", "１"];

fn details(kind: Kind, n: usize, det: u16, idx: usize) -> Vec<String> {
    let mut v = vec![format!("r{idx}")];
    let mut h = det as usize + 7;
    for _ in 1..n {
        let w = DETAIL_WORDS[h % DETAIL_WORDS.len()];
        let w = if kind.euc() { sanitize(w) } else { w.to_string() };
        v.push(w);
        h = h / 3 + 5 * (h % 3) + 1;
    }
    v
}

/// replace what EUC-JP cannot carry
pub fn sanitize(s: &str) -> String {
    s.chars().map(|c| if euc_encodable(c) { c } else { 'ア' }).collect()
}

#[derive(Clone, Debug)]
pub struct DictSize {
    pub rows: usize,
    pub user: usize,
    pub matrix: u16,
    pub alpha: usize,
}

pub fn alphabet(n: usize) -> BoxedStrategy<Vec<char>> {
    let kanji: Vec<char> = "東京都大学一二龥龯龰䷿".chars().collect();
    let kana: Vec<char> = "あいうかがアイテトー".chars().collect();
    prop_oneof![
        3 => vec(pool_char(), 1..=n),
        2 => vec(proptest::sample::select(kanji), 1..=n.min(4)),
        2 => vec(proptest::sample::select(kana), 1..=n.min(4)),
    ]
    .boxed()
}

/// A dictionary whose categories all have unknown-word templates, and a user dictionary for it.
pub fn dict_case(sz: DictSize) -> BoxedStrategy<(DictSpec, Vec<URow>, Vec<char>)> {
    dict_case_of(kind(), sz)
}

pub fn dict_case_of(kinds: BoxedStrategy<Kind>, sz: DictSize) -> BoxedStrategy<(DictSpec, Vec<URow>, Vec<char>)> {
    let m = sz.matrix;
    (
        kinds,
        alphabet(sz.alpha),
        // categories: which templates, flags
        vec((any::<bool>(), any::<bool>(), any::<bool>(), 0u32..3), TEMPLATES.len() + 1),
        // extra ranges on alphabet characters
        vec((any::<u16>(), prop_oneof![9 => vec(any::<u16>(), 1..=3), 1 => vec(any::<u16>(), 4..=11)]), 0..=4),
        // unk lines: at least one per category, plus extra
        vec((any::<u16>(), any::<u16>(), cost()), TEMPLATES.len() + 1),
        vec((any::<u16>(), any::<u16>(), any::<u16>(), cost()), 0..=5),
        (1..=m, 1..=m, vec(cost(), (m as usize) * (m as usize)), vec(any::<bool>(), (m as usize) * (m as usize)), 0u8..4),
        prop_oneof![1 => vec(raw_row(6), 1..=3), 6 => vec(raw_row(6), 1..=sz.rows)],
        vec((raw_row(6), any::<bool>()), 0..=sz.user),
        (any::<bool>(), prop_oneof![12 => 1usize..=12, 1 => 13usize..=80], 1usize..=3),
    )
        .prop_map(move |(kind, alpha, catf, extra, unk1, unk2, (fwd, bwd, costs, miss, missmode), rows, user, misc)| {
            // a BOM at the start of a CSV file is not data
            let alpha: Vec<char> = alpha.into_iter().map(|c| if c == '\u{FEFF}' { 'ア' } else { c }).collect();
            let alpha: Vec<char> =
                if kind.euc() { sanitize(&alpha.iter().collect::<String>()).chars().collect() } else { alpha };
            let mut cats = vec![Cat { name: "DEFAULT".into(), invoke: catf[0].1, group: catf[0].2, length: catf[0].3 }];
            let mut ranges: Vec<(u16, u16, Vec<usize>)> = vec![];
            for (i, (name, rs)) in TEMPLATES.iter().enumerate() {
                let f = catf[i + 1];
                if f.0 {
                    cats.push(Cat { name: name.to_string(), invoke: f.1, group: f.2, length: f.3 });
                    for (a, b) in rs.iter() {
                        ranges.push((*a, *b, vec![cats.len() - 1]));
                    }
                }
            }
            for (c, cs) in extra {
                let ch = alpha[scale(c, alpha.len())] as u32;
                if ch <= 0xFFFF && ch != 0xFEFF && ch != 0xFFFE {
                    let cs = cs.iter().map(|i| scale(*i, cats.len())).collect();
                    // sometimes before, sometimes after the script ranges
                    if c % 2 == 0 {
                        ranges.insert(0, (ch as u16, ch as u16, cs));
                    } else {
                        ranges.push((ch as u16, ch as u16, cs));
                    }
                }
            }
            let lid = |i: u16| scale(i, bwd as usize) as u16;
            let rid = |i: u16| scale(i, fwd as usize) as u16;
            let mut unk: Vec<(usize, u16, u16, i16)> = (0..cats.len())
                .map(|c| {
                    let (l, r, k) = unk1[c];
                    (c, lid(l), rid(r), k)
                })
                .collect();
            for (c, l, r, k) in unk2 {
                unk.push((scale(c, cats.len()), lid(l), rid(r), k));
            }
            let mut cv = vec![];
            let mut k = 0;
            for f in 0..fwd {
                for b in 0..bwd {
                    // missing entries only in some dictionaries
                    if !(missmode == 0 && miss[k]) {
                        cv.push((f, b, costs[k]));
                    }
                    k += 1;
                }
            }
            let nd = if misc.0 { kind.detail_cols() } else { misc.1 };
            let surf = |r: &RawRow| -> String {
                let s: String = r.surf.iter().map(|i| alpha[scale(*i, alpha.len())]).collect();
                // now and then a word of hundreds of bytes
                let k = r.surf.iter().map(|i| *i as usize).sum::<usize>() % 150;
                if k == 7 { s.repeat(300 / s.len() + 1) } else { s }
            };
            let mut rows_out: Vec<Row> = vec![];
            let mut count = std::collections::HashMap::new();
            for r in rows.iter() {
                let s = surf(r);
                // 32 and more entries for one surface are a known finding of P06, kept out here
                let n = count.entry(norm(kind, &s)).or_insert(0);
                *n += 1;
                if *n > 31 {
                    continue;
                }
                let idx = rows_out.len();
                rows_out.push(Row {
                    surface: s,
                    left: lid(r.left),
                    right: rid(r.right),
                    cost: r.cost,
                    details: details(kind, nd, r.det, idx),
                });
            }
            let mut ucount = std::collections::HashMap::new();
            let mut user_out = vec![];
            // UniDic, ko-dic and CC-CEDICT want all rows of a user file to have one width
            let all_simple = user.first().map(|u| u.1).unwrap_or(true);
            for (r, simple) in user.iter() {
                let s: String = surf(r);
                let n = ucount.entry(s.clone()).or_insert(0);
                *n += 1;
                if *n > 31 {
                    continue;
                }
                let idx = user_out.len();
                let simple = if kind.normalizes() { *simple } else { all_simple };
                user_out.push(if simple {
                    URow::Simple { surface: s, pos: format!("u{idx}"), reading: format!("ヨミ{idx}") }
                } else {
                    let mut d = details(kind, kind.detail_cols(), r.det, idx);
                    d[0] = format!("u{idx}");
                    URow::Detailed { surface: s, left: lid(r.left), right: rid(r.right), cost: r.cost, details: d }
                });
            }
            let spec = DictSpec {
                kind,
                cats,
                ranges,
                unk,
                fwd,
                bwd,
                costs: cv,
                rows: rows_out,
                files: misc.2,
            };
            (spec, user_out, alpha)
        })
        .boxed()
}

pub fn mode() -> BoxedStrategy<ModeSpec> {
    prop_oneof![1 => Just(ModeSpec::Normal), 1 => decompose()].boxed()
}

pub fn decompose() -> BoxedStrategy<ModeSpec> {
    let pen = prop_oneof![3 => -20i32..50, 2 => 0i32..5000, 1 => -100_000i32..100_000, 1 => Just(0),
        1 => prop_oneof![any::<i32>(), Just(i32::MAX), Just(i32::MIN)]];
    let far = |n: usize| prop_oneof![24 => 0usize..n, 1 => prop_oneof![Just(usize::MAX), Just(1usize << 32), Just(u32::MAX as usize)]];
    prop_oneof![
        2 => Just(ModeSpec::Decompose { kt: 2, kp: 3000, ot: 7, op: 1700 }),
        6 => (far(6), pen.clone(), far(9), pen).prop_map(|(kt, kp, ot, op)| ModeSpec::Decompose { kt, kp, ot, op }),
    ]
    .boxed()
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct TokCase {
    pub dict: DictSpec,
    pub user: Vec<URow>,
    pub mode: ModeSpec,
    pub texts: Vec<String>,
}

pub fn tok_case(m: BoxedStrategy<ModeSpec>, ntexts: usize, maxpieces: usize) -> BoxedStrategy<TokCase> {
    tok_case_sized(m, ntexts, maxpieces, DictSize { rows: 24, user: 6, matrix: 4, alpha: 6 })
}

pub fn tok_case_sized(m: BoxedStrategy<ModeSpec>, ntexts: usize, maxpieces: usize, sz: DictSize) -> BoxedStrategy<TokCase> {
    tok_case_of(kind(), m, ntexts, maxpieces, sz)
}

pub fn tok_case_of(kinds: BoxedStrategy<Kind>, m: BoxedStrategy<ModeSpec>, ntexts: usize, maxpieces: usize, sz: DictSize) -> BoxedStrategy<TokCase> {
    (dict_case_of(kinds, sz), m, vec(vec(piece(), 0..=maxpieces), 1..=ntexts))
        .prop_map(|((dict, user, alpha), mode, texts)| {
            let texts = texts
                .iter()
                .map(|p| {
                    let w: Vec<&str> = dict.rows.iter().map(|r| r.surface.as_str()).collect();
                    let u: Vec<&str> = user.iter().map(|r| r.surface()).collect();
                    let t = render(p, &alpha, &w, &u);
                    // text of an IPADIC kind meets its dictionary in normalised form
                    if dict.kind.normalizes() && t.len() % 2 == 0 { norm(dict.kind, &t) } else { t }
                })
                .collect();
            TokCase { dict, user, mode, texts }
        })
        .boxed()
}

/// The same case with context ids spread over a large range: ids that agree in their low byte, ids
/// near the 8-, 15- and 16-bit limits, and matrices with many more ids of one side than of the other.
/// Id 0 stays 0 (sentence start and end).
pub fn spread(case: BoxedStrategy<TokCase>, max: u32) -> BoxedStrategy<TokCase> {
    let side = move || {
        prop_oneof![
            2 => vec(1u32..=3, 8).prop_map(|v| v.iter().scan(0, |a, d| { *a += d; Some(*a) }).collect::<Vec<u32>>()),
            2 => vec(0u32..3, 8).prop_map(|v| v.iter().scan(0, |a, d| { *a += 256 * (d / 2) + 1 + (255 * (d % 2)); Some(*a) }).collect()),
            2 => vec(1u32..(max / 8), 8).prop_map(|v| v.iter().scan(0, |a, d| { *a += d; Some(*a) }).collect()),
            1 => (1u32..=8).prop_map(move |k| (0..8).map(|i| max - 8 - k + i).collect()),
        ]
    };
    (case, side(), side(), any::<bool>())
        .prop_map(move |(mut c, f, b, wide)| {
            // at most one side is really large
            let lim = |v: Vec<u32>, on: bool| -> Vec<u16> {
                std::iter::once(0)
                    .chain(v.iter().enumerate().map(|(i, x)| if on || v[7] < 600 { *x as u16 } else { i as u16 + 1 }))
                    .collect()
            };
            let (f, b) = (lim(f, wide), lim(b, !wide));
            let d = &mut c.dict;
            for r in d.rows.iter_mut() {
                r.left = b[r.left as usize];
                r.right = f[r.right as usize];
            }
            for u in d.unk.iter_mut() {
                u.1 = b[u.1 as usize];
                u.2 = f[u.2 as usize];
            }
            for u in c.user.iter_mut() {
                if let URow::Detailed { left, right, .. } = u {
                    *left = b[*left as usize];
                    *right = f[*right as usize];
                }
            }
            for x in d.costs.iter_mut() {
                x.0 = f[x.0 as usize];
                x.1 = b[x.1 as usize];
            }
            d.fwd = f[d.fwd as usize - 1] + 1;
            d.bwd = b[d.bwd as usize - 1] + 1;
            c
        })
        .boxed()
}

/// Words that are prefixes of one another, up to a hundred deep, in the dictionary and the user dictionary.
pub fn nested(base: BoxedStrategy<TokCase>) -> BoxedStrategy<TokCase> {
    (base, 1usize..=2, 17usize..110, any::<u32>(), any::<bool>())
        .prop_map(|(mut c, width, depth, seed, falling)| {
            let unit: Vec<char> = c.dict.rows.iter().flat_map(|r| r.surface.chars()).filter(|c| !['。', '、', '\n', '\t', '\0', '\r', '"'].contains(c)).take(width).collect();
            if unit.is_empty() || c.dict.rows.is_empty() {
                return c;
            }
            let chain = |n: usize| unit.iter().cycle().take(n).collect::<String>();
            let mut h = seed | 1;
            let mut next = || {
                h = h.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                h >> 8
            };
            let unorm = c.dict.kind;
            for n in 1..=depth {
                let surface = chain(n);
                let r = next();
                let cost = if falling { -(n as i16) * 40 + (r % 30) as i16 } else { (r % 4000) as i16 - 2000 };
                let like = c.dict.rows[r as usize / 16 % c.dict.rows.len()].clone();
                let (left, right) = (like.left, like.right);
                if r % 7 != 0 && c.dict.rows.iter().filter(|x| norm(unorm, &x.surface) == norm(unorm, &surface)).count() < 31 {
                    let mut details = like.details;
                    if let Some(d) = details.first_mut() {
                        *d = format!("r{}", c.dict.rows.len());
                    }
                    c.dict.rows.push(Row { surface: surface.clone(), left, right, cost, details });
                }
                let detailed = c.user.iter().find(|u| matches!(u, URow::Detailed { .. })).cloned();
                if let (Some(URow::Detailed { left, right, details, .. }), true) = (detailed, r % 3 == 0) {
                    if c.user.iter().filter(|u| u.surface() == surface).count() < 31 {
                        let mut details = details;
                        if let Some(d) = details.first_mut() {
                            *d = format!("u{}", c.user.len());
                        }
                        c.user.push(URow::Detailed { surface, left, right, cost: cost.saturating_sub((r % 50) as i16), details });
                    }
                }
            }
            let whole = chain(depth + 3);
            c.texts.truncate(2);
            c.texts.push(whole.clone());
            c.texts.push(format!("{}x{whole}", c.texts[0]));
            c
        })
        .boxed()
}
