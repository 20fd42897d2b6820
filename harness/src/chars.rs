//! Character filters: configurations, generators and reference models.
use crate::gen::*;
use crate::runner::*;
use lindera_core::LinderaResult;
use lindera_filter::character_filter::japanese_iteration_mark::{JapaneseIterationMarkCharacterFilter, JapaneseIterationMarkCharacterFilterConfig};
use lindera_filter::character_filter::mapping::{MappingCharacterFilter, MappingCharacterFilterConfig};
use lindera_filter::character_filter::regex::{RegexCharacterFilter, RegexCharacterFilterConfig};
use lindera_filter::character_filter::unicode_normalize::{
    UnicodeNormalizeCharacterFilter, UnicodeNormalizeCharacterFilterConfig, UnicodeNormalizeKind,
};
use lindera_filter::character_filter::{correct_offset, BoxCharacterFilter, CharacterFilterLoader};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use unicode_normalization::UnicodeNormalization;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CF {
    Mapping(BTreeMap<String, String>),
    Regex(String, String),
    Norm(u8),
    Iter(bool, bool),
}

pub const FORMS: [&str; 4] = ["nfc", "nfd", "nfkc", "nfkd"];

impl CF {
    pub fn kind(&self) -> &'static str {
        match self {
            CF::Mapping(_) => "mapping",
            CF::Regex(..) => "regex",
            CF::Norm(_) => "unicode_normalize",
            CF::Iter(..) => "japanese_iteration_mark",
        }
    }
    pub fn args(&self) -> Value {
        match self {
            CF::Mapping(m) => json!({"mapping": m}),
            CF::Regex(p, r) => json!({"pattern": p, "replacement": r}),
            CF::Norm(k) => json!({"kind": FORMS[*k as usize % 4]}),
            CF::Iter(kanji, kana) => json!({"normalize_kanji": kanji, "normalize_kana": kana}),
        }
    }
    pub fn load(&self) -> Result<BoxCharacterFilter, String> {
        self.load_by(7)
    }
    /// All the ways to make the filter make the same one.
    pub fn load_by(&self, route: u32) -> Result<BoxCharacterFilter, String> {
        let args = self.args();
        catch(|| match route {
            0 => self.from_text(args.to_string().as_bytes()),
            1 => self.by_hand(),
            2 => CharacterFilterLoader::load_from_cli_flag(&format!("{}:{args}", self.kind())),
            3 => CharacterFilterLoader::load_from_value(self.kind(), &args).map(|f| f.box_clone()),
            _ => CharacterFilterLoader::load_from_value(self.kind(), &args),
        })
        .map_err(|p| format!("loading {self:?} (route {route}) {p}"))?
        .map_err(|e| format!("loading {self:?} (route {route}): {e:?}"))
    }
    fn from_text(&self, b: &[u8]) -> LinderaResult<BoxCharacterFilter> {
        Ok(match self {
            CF::Mapping(_) => MappingCharacterFilter::from_slice(b)?.into(),
            CF::Regex(..) => RegexCharacterFilter::from_slice(b)?.into(),
            CF::Norm(_) => UnicodeNormalizeCharacterFilter::from_slice(b)?.into(),
            CF::Iter(..) => JapaneseIterationMarkCharacterFilter::from_slice(b)?.into(),
        })
    }
    fn by_hand(&self) -> LinderaResult<BoxCharacterFilter> {
        Ok(match self {
            CF::Mapping(m) => {
                MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m.iter().map(|(a, b)| (a.clone(), b.clone())).collect()))?.into()
            }
            CF::Regex(p, r) => RegexCharacterFilter::new(RegexCharacterFilterConfig::new(p.clone(), r.clone()))?.into(),
            CF::Norm(k) => UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::new(match k % 4 {
                0 => UnicodeNormalizeKind::NFC,
                1 => UnicodeNormalizeKind::NFD,
                2 => UnicodeNormalizeKind::NFKC,
                _ => UnicodeNormalizeKind::NFKD,
            }))
            .into(),
            CF::Iter(a, b) => {
                JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(*a, *b)).into()
            }
        })
    }
}

/// One piece of the text: [0] its input range, [1] its output range. Pieces are contiguous.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pc {
    pub i0: usize,
    pub i1: usize,
    pub o0: usize,
    pub o1: usize,
    pub copied: bool,
}

#[derive(Default, Debug)]
pub struct Out {
    pub text: String,
    pub pieces: Vec<Pc>,
}

impl Out {
    fn push(&mut self, input: &str, output: &str, copied: bool) {
        let i0 = self.pieces.last().map_or(0, |p| p.i1);
        let o0 = self.text.len();
        self.text.push_str(output);
        self.pieces.push(Pc { i0, i1: i0 + input.len(), o0, o1: self.text.len(), copied });
    }
    fn copy(&mut self, s: &str) {
        for c in s.chars() {
            let c = c.to_string();
            self.push(&c, &c, true);
        }
    }
    /// The input positions an output position may stand for.
    pub fn range(&self, p: usize) -> (usize, usize) {
        let b = self.boundaries(p);
        if let (Some(lo), Some(hi)) = (b.iter().min(), b.iter().max()) {
            return (*lo, *hi);
        }
        let pc = &self.pieces[self.pieces.partition_point(|x| x.o1 < p)];
        assert!(pc.o0 < p && p < pc.o1, "position inside the output");
        if pc.copied { (pc.i0 + p - pc.o0, pc.i0 + p - pc.o0) } else { (pc.i0, pc.i1) }
    }
    /// The input positions of the boundaries between pieces at an output position.
    pub fn boundaries(&self, p: usize) -> Vec<usize> {
        let ps = &self.pieces;
        let from = ps.partition_point(|x| x.o1 < p);
        (p == 0).then_some(0).into_iter().chain(ps[from..].iter().take_while(|x| x.o1 == p).map(|x| x.i1)).collect()
    }
}

pub fn norm_form(k: u8, s: &str) -> String {
    match k % 4 {
        0 => s.nfc().collect(),
        1 => s.nfd().collect(),
        2 => s.nfkc().collect(),
        _ => s.nfkd().collect(),
    }
}

const H_UNVOICED: &str = "かきくけこさしすせそたちつてとはひふへほ";
const H_VOICED: &str = "がぎぐげござじずぜぞだぢづでどばびぶべぼ";
const K_UNVOICED: &str = "カキクケコサシスセソタチツテトハヒフヘホ";
const K_VOICED: &str = "ガギグゲゴザジズゼゾダヂヅデドバビブベボ";

fn swap(c: char, from: &str, to: &str) -> char {
    from.chars().position(|x| x == c).map_or(c, |i| to.chars().nth(i).unwrap())
}

pub fn model(f: &CF, text: &str) -> Out {
    let mut out = Out::default();
    match f {
        CF::Mapping(m) => {
            let mut rest = text;
            while let Some(c) = rest.chars().next() {
                let key = m.keys().filter(|k| !k.is_empty() && rest.starts_with(k.as_str())).max_by_key(|k| k.len());
                match key {
                    Some(k) => {
                        out.push(k, &m[k], false);
                        rest = &rest[k.len()..];
                    }
                    None => {
                        out.copy(&rest[..c.len_utf8()]);
                        rest = &rest[c.len_utf8()..];
                    }
                }
            }
        }
        CF::Regex(p, r) => {
            let re = regex::Regex::new(p).expect("generated pattern");
            let mut at = 0;
            for c in re.captures_iter(text) {
                let m = c.get(0).unwrap();
                out.copy(&text[at..m.start()]);
                let mut s = String::new();
                c.expand(r, &mut s);
                out.push(m.as_str(), &s, false);
                at = m.end();
            }
            out.copy(&text[at..]);
        }
        CF::Norm(k) => {
            // boundaries between grapheme clusters at which the two sides normalise independently
            let whole = norm_form(*k, text);
            let mut at = 0;
            let mut done = 0;
            let mut bounds: Vec<usize> = text.grapheme_indices(true).map(|x| x.0).skip(1).collect();
            bounds.push(text.len());
            for b in bounds {
                if b == 0 {
                    continue;
                }
                let left = norm_form(*k, &text[..b]);
                if whole.len() >= left.len() && whole.starts_with(&left) && whole[left.len()..] == norm_form(*k, &text[b..]) {
                    out.push(&text[at..b], &whole[done..left.len()], false);
                    at = b;
                    done = left.len();
                }
            }
        }
        CF::Iter(kanji, kana) => {
            let cs: Vec<char> = text.chars().collect();
            let enabled = |c: char| (c == '々' && *kanji) || ("ゝゞヽヾ".contains(c) && *kana);
            let mut p = 0;
            while p < cs.len() {
                let k = cs[p..].iter().take_while(|c| enabled(**c)).count();
                if k == 0 {
                    out.push(&cs[p].to_string(), &cs[p].to_string(), true);
                    p += 1;
                    continue;
                }
                let back = k.min(p);
                for j in p..p + k {
                    let src = cs[j - back];
                    let r = match cs[j] {
                        '々' => src,
                        'ゝ' => swap(src, H_VOICED, H_UNVOICED),
                        'ゞ' => swap(src, H_UNVOICED, H_VOICED),
                        'ヽ' => swap(src, K_VOICED, K_UNVOICED),
                        _ => swap(src, K_UNVOICED, K_VOICED),
                    };
                    out.push(&cs[j].to_string(), &r.to_string(), false);
                }
                p += k;
            }
        }
    }
    out
}

/// Apply the real filter to one text and compare it with the model.
pub fn check_filter(f: &CF, real: &BoxCharacterFilter, text: &str, o: &mut Obs) -> Result<Out, String> {
    let want = model(f, text);
    let (got, offsets, diffs) = catch(|| real.apply(text))
        .map_err(|p| format!("{f:?} on {text:?} {p}"))?
        .map_err(|e| format!("{f:?} on {text:?}: {e:?}"))?;
    if got != want.text {
        return Err(format!("{f:?} on {text:?} gives {got:?} instead of {:?}", want.text));
    }
    if offsets.len() != diffs.len() {
        return Err(format!("{f:?} on {text:?}: {} offsets and {} corrections", offsets.len(), diffs.len()));
    }
    let mut prev = 0;
    for p in 0..=got.len() {
        let c = catch(|| correct_offset(p, &offsets, &diffs, got.len())).map_err(|e| format!("{f:?} on {text:?}: correcting offset {p} {e}"))?;
        let b = want.boundaries(p);
        if !b.is_empty() {
            if !b.contains(&c) {
                return Err(format!(
                    "{f:?} on {text:?}: position {p} of {got:?} is a boundary and stands for position {b:?} of the input, but is corrected to {c}"
                ));
            }
        } else {
            let (lo, hi) = want.range(p);
            if c < lo || c > hi {
                return Err(format!(
                    "{f:?} on {text:?}: position {p} of {got:?} is inside the piece from input {lo}..{hi}, but is corrected to {c}"
                ));
            }
        }
        if c < prev {
            return Err(format!("{f:?} on {text:?}: positions {} and {p} of {got:?} are corrected to {prev} and then {c}", p - 1));
        }
        prev = c;
    }
    o.steps += 1;
    o.label_if(want.pieces.iter().any(|p| !p.copied && p.o1 - p.o0 > p.i1 - p.i0), "grows");
    o.label_if(want.pieces.iter().any(|p| !p.copied && p.o1 - p.o0 < p.i1 - p.i0), "shrinks");
    o.label_if(want.pieces.iter().any(|p| p.o1 == p.o0), "deletion");
    o.label_if(want.pieces.iter().any(|p| p.i1 == p.i0), "empty match");
    Ok(want)
}

// ------------------------------------------------------------------------------------ generators

const NORM_CHARS: &str = "ｶﾞﾊﾟｳﾞﾀｧかが\u{3099}\u{309A}ハバ\u{301}\u{327}\u{323}eéẹ\u{0345}Å\u{212B}한\u{1100}\u{1161}\u{11A8}\u{11A7}가각ㄱㅏㅣﾡￂ①㍿㌔ﬁ²Ａ　ﷺ\u{FB2C}שׂ\u{0F73}\u{0344}ΐ👨👩\u{200D}🇯🇵\u{FE0F}a1 \r\n\u{0600}क\u{094D}ष\u{09C7}\u{09BE}\u{110BA}\u{1133E}\u{1D15E}豈\u{2F800}";
const ITER_CHARS: &str = "々ゝゞヽヾ々ゝゞヽヾ時かがきぎはばぱうゔアカガザチヂツヅデドボポa😀é\nくぐづ";

pub fn filter_alphabet() -> BoxedStrategy<Vec<char>> {
    let n: Vec<char> = NORM_CHARS.chars().collect();
    let i: Vec<char> = ITER_CHARS.chars().collect();
    prop_oneof![
        3 => vec(pool_char(), 1..=6usize),
        2 => vec(prop_oneof![9 => proptest::sample::select(n), 1 => any::<char>()], 1..=6usize),
        2 => vec(proptest::sample::select(i), 1..=7usize),
        1 => vec(prop_oneof![Just('\0'), any_char(), Just('a'), Just('b')], 1..=4usize),
    ]
    .boxed()
}

fn at<T: Copy>(v: &[T], i: u16) -> T {
    v[(i as usize * v.len()) >> 16]
}

pub fn word(alpha: &[char], w: &[u16]) -> String {
    w.iter().map(|i| at(alpha, *i)).collect()
}

/// Skeletons made concrete by an alphabet.
#[derive(Clone, Debug)]
pub enum RawCF {
    Mapping(Vec<(Vec<u16>, Vec<u16>, u8)>),
    Regex(RawRe, Vec<(u8, u16)>, u8),
    Norm(u8),
    Iter(bool, bool),
}

#[derive(Clone, Debug)]
pub enum RawRe {
    Lit(Vec<u16>),
    Class(Vec<u16>, bool),
    Dot,
    Script(u8),
    Anchor(u8),
    Cat(Vec<RawRe>),
    Alt(Vec<RawRe>),
    Rep(Box<RawRe>, u8, bool),
    Group(Box<RawRe>),
}

impl RawRe {
    fn show(&self, a: &[char]) -> String {
        match self {
            RawRe::Lit(w) => regex::escape(&word(a, w)),
            RawRe::Class(w, neg) => {
                let body: String = w.iter().map(|i| format!("\\x{{{:X}}}", at(a, *i) as u32)).collect();
                format!("[{}{}]", if *neg { "^" } else { "" }, body)
            }
            RawRe::Dot => ".".into(),
            RawRe::Script(i) => ["\\p{Hiragana}", "\\p{Katakana}", "\\p{Han}", "\\d", "\\s", "\\w"][*i as usize % 6].into(),
            RawRe::Anchor(i) => ["^", "$", "\\b", "\\B"][*i as usize % 4].into(),
            RawRe::Cat(v) => v.iter().map(|r| match r {
                RawRe::Alt(_) => format!("(?:{})", r.show(a)),
                _ => r.show(a),
            }).collect(),
            RawRe::Alt(v) => v.iter().map(|r| r.show(a)).collect::<Vec<_>>().join("|"),
            RawRe::Rep(r, k, lazy) => format!(
                "(?:{}){}{}",
                r.show(a),
                ["*", "+", "?", "{2}", "{1,2}", "{0}", "{2,}"][*k as usize % 7],
                if *lazy { "?" } else { "" }
            ),
            RawRe::Group(r) => format!("({})", r.show(a)),
        }
    }
}

fn raw_re() -> BoxedStrategy<RawRe> {
    let leaf = prop_oneof![
        4 => vec(any::<u16>(), 1..=3usize).prop_map(RawRe::Lit),
        2 => (vec(any::<u16>(), 1..=3usize), any::<bool>()).prop_map(|(v, n)| RawRe::Class(v, n)),
        1 => Just(RawRe::Dot),
        1 => (0u8..6).prop_map(RawRe::Script),
        1 => (0u8..4).prop_map(RawRe::Anchor),
        1 => Just(RawRe::Lit(vec![])),
    ];
    leaf.prop_recursive(3, 10, 3, |inner| {
        prop_oneof![
            2 => vec(inner.clone(), 1..=3usize).prop_map(RawRe::Cat),
            2 => vec(inner.clone(), 1..=3usize).prop_map(RawRe::Alt),
            2 => (inner.clone(), 0u8..7, any::<bool>()).prop_map(|(r, k, l)| RawRe::Rep(Box::new(r), k, l)),
            2 => inner.prop_map(|r| RawRe::Group(Box::new(r))),
        ]
    })
    .boxed()
}

impl RawCF {
    pub fn concrete(&self, a: &[char]) -> CF {
        match self {
            RawCF::Mapping(m) => CF::Mapping(
                m.iter()
                    .map(|(k, v, x)| {
                        let k: String = word(a, k).chars().filter(|c| *c != '\0').collect();
                        let v = match x {
                            0 => String::new(),
                            1 => word(a, v) + "長い置換",
                            2 => k.clone(),
                            _ => word(a, v),
                        };
                        (k, v)
                    })
                    .filter(|(k, _)| !k.is_empty())
                    .collect(),
            ),
            RawCF::Regex(r, rep, flag) => {
                let mut s = ["", "", "(?i)", "(?m)", "(?s)"][*flag as usize % 5].to_string();
                s += &r.show(a);
                let mut out = String::new();
                for (k, i) in rep {
                    match k {
                        0 => out.push_str("$0"),
                        1 => out.push_str("$1"),
                        2 => out.push_str("${2}"),
                        3 => out.push_str("$$"),
                        4 => out.push_str("${nope}x"),
                        5 => out.push('$'),
                        _ => out.push(at(a, *i)),
                    }
                }
                CF::Regex(s, out)
            }
            RawCF::Norm(k) => CF::Norm(*k % 4),
            RawCF::Iter(a, b) => CF::Iter(*a, *b),
        }
    }
}

pub fn raw_mapping() -> BoxedStrategy<RawCF> {
    vec((vec(any::<u16>(), 1..=4usize), vec(any::<u16>(), 0..=4usize), 0u8..8), 0..=6usize).prop_map(RawCF::Mapping).boxed()
}
pub fn raw_regex() -> BoxedStrategy<RawCF> {
    (raw_re(), vec((prop_oneof![3 => Just(9u8), 1 => 0u8..6], any::<u16>()), 0..=4usize), 0u8..5)
        .prop_map(|(r, rep, f)| RawCF::Regex(r, rep, f))
        .boxed()
}
pub fn raw_norm() -> BoxedStrategy<RawCF> {
    (0u8..4).prop_map(RawCF::Norm).boxed()
}
pub fn raw_iter() -> BoxedStrategy<RawCF> {
    (any::<bool>(), any::<bool>()).prop_map(|(a, b)| RawCF::Iter(a, b)).boxed()
}
pub fn raw_any() -> BoxedStrategy<RawCF> {
    prop_oneof![3 => raw_mapping(), 3 => raw_regex(), 2 => raw_norm(), 2 => raw_iter()].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FilterCase {
    pub filter: CF,
    pub texts: Vec<String>,
}

pub fn filter_case(raw: BoxedStrategy<RawCF>) -> BoxedStrategy<FilterCase> {
    (filter_alphabet(), raw, vec(vec((any::<u16>(), 0u8..40, any::<u16>()), 0..=12usize), 1..=5usize))
        .prop_map(|(a, raw, texts)| {
            let filter = raw.concrete(&a);
            let texts = texts
                .iter()
                .map(|t| {
                    let mut s = String::new();
                    for (i, what, j) in t {
                        match (&filter, what) {
                            (CF::Mapping(m), 0..=9) if !m.is_empty() => {
                                s.push_str(m.keys().nth((*i as usize * m.len()) >> 16).unwrap())
                            }
                            (CF::Iter(..), 0..=14) => s.push(ITER_CHARS.chars().nth((*j as usize * ITER_CHARS.chars().count()) >> 16).unwrap()),
                            (CF::Norm(_), 0..=9) => s.push(NORM_CHARS.chars().nth((*j as usize * NORM_CHARS.chars().count()) >> 16).unwrap()),
                            (_, 10) => s.push(POOL[(*j as usize * POOL.len()) >> 16]),
                            (_, 11) => s.push('\0'),
                            _ => s.push(at(&a, *i)),
                        }
                    }
                    s
                })
                .collect();
            FilterCase { filter, texts }
        })
        .boxed()
}

/// How a text is made long: runs of one of its characters, then the whole over and over.
#[derive(Clone, Debug)]
pub struct Growth {
    runs: Vec<(u16, u16)>,
    times: u32,
    far: bool,
}

pub fn growth() -> BoxedStrategy<Growth> {
    (vec((any::<u16>(), 1u16..700), 0..=3usize), 1u32..400, prop::bool::weighted(0.1))
        .prop_map(|(runs, times, far)| Growth { runs, times, far })
        .boxed()
}

impl Growth {
    /// At most `near` bytes, or now and then `far`.
    pub fn grow(&self, text: &str, near: usize, far: usize) -> String {
        let mut cs: Vec<char> = text.chars().collect();
        for (i, n) in &self.runs {
            if !cs.is_empty() {
                let i = (*i as usize * cs.len()) >> 16;
                let c = cs[i];
                cs.splice(i..i, std::iter::repeat(c).take(*n as usize));
            }
        }
        let one: String = cs.into_iter().collect();
        let room = if self.far { far } else { near };
        let times = if self.far { room / one.len().max(1) } else { (self.times as usize).min(room / one.len().max(1)) };
        one.repeat(times.max(1))
    }
}

/// Long texts, many and long keys.
pub fn large_filter_case(raw: BoxedStrategy<RawCF>) -> BoxedStrategy<FilterCase> {
    (filter_case(raw), growth(), vec((any::<u16>(), any::<u16>(), 0u16..300, 0u16..300), 0..=400usize))
        .prop_map(|(mut c, g, more)| {
            let mut far = 70_000;
            let mut near = 20_000;
            let mut longest = String::new();
            match &mut c.filter {
                CF::Mapping(m) => {
                    let alpha: Vec<char> = c.texts.concat().chars().filter(|c| *c != '\0').collect();
                    let n = alpha.len();
                    for (i, j, k, l) in more {
                        if n == 0 {
                            break;
                        }
                        let cut = |i: u16, n: u16| -> String { alpha.iter().cycle().skip(i as usize).take(n as usize).collect() };
                        let (k, l) = (if k < 200 { k % 4 + 1 } else { k - 40 }, if l < 260 { l % 5 } else { l });
                        let key = cut(i % n as u16, k);
                        if key.len() > longest.len() {
                            longest = key.clone();
                        }
                        m.insert(key, cut(j % n as u16, l));
                    }
                }
                CF::Norm(_) => (near, far) = (2_000, 5_000),
                // a pattern may take a time that grows with the square of the text
                CF::Regex(..) => (near, far) = (4_000, 70_000),
                CF::Iter(..) => {}
            }
            for t in &mut c.texts {
                t.push_str(&longest);
                *t = g.grow(t, near, far);
            }
            c.texts.truncate(2);
            c
        })
        .boxed()
}
