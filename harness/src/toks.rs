//! Token filters: configurations, generators and reference models.
use crate::gen::*;
use crate::runner::*;
use lindera_core::word_entry::WordId;
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use lindera_filter::token_filter::japanese_base_form::{JapaneseBaseFormTokenFilter, JapaneseBaseFormTokenFilterConfig};
use lindera_filter::token_filter::japanese_reading_form::{JapaneseReadingFormTokenFilter, JapaneseReadingFormTokenFilterConfig};
use lindera_filter::token_filter::japanese_katakana_stem::{JapaneseKatakanaStemTokenFilter, JapaneseKatakanaStemTokenFilterConfig};
use lindera_filter::token_filter::japanese_keep_tags::{JapaneseKeepTagsTokenFilter, JapaneseKeepTagsTokenFilterConfig};
use lindera_filter::token_filter::japanese_stop_tags::{JapaneseStopTagsTokenFilter, JapaneseStopTagsTokenFilterConfig};
use lindera_filter::token_filter::keep_words::{KeepWordsTokenFilter, KeepWordsTokenFilterConfig};
use lindera_filter::token_filter::stop_words::{StopWordsTokenFilter, StopWordsTokenFilterConfig};
use lindera_filter::token_filter::korean_keep_tags::{KoreanKeepTagsTokenFilter, KoreanKeepTagsTokenFilterConfig};
use lindera_filter::token_filter::korean_stop_tags::{KoreanStopTagsTokenFilter, KoreanStopTagsTokenFilterConfig};
use lindera_filter::token_filter::length::{LengthTokenFilter, LengthTokenFilterConfig};
use lindera_filter::token_filter::mapping::{MappingTokenFilter, MappingTokenFilterConfig};
use lindera_filter::token_filter::japanese_compound_word::{JapaneseCompoundWordTokenFilter, JapaneseCompoundWordTokenFilterConfig};
use lindera_filter::token_filter::japanese_number::{JapaneseNumberTokenFilter, JapaneseNumberTokenFilterConfig};
use lindera_filter::token_filter::japanese_kana::{JapaneseKanaTokenFilter, JapaneseKanaTokenFilterConfig, KanaKind};
use lindera_filter::token_filter::korean_reading_form::KoreanReadingFormTokenFilter;
use lindera_filter::token_filter::lowercase::LowercaseTokenFilter;
use lindera_filter::token_filter::uppercase::UppercaseTokenFilter;
use lindera_core::LinderaResult;
use lindera_dictionary::DictionaryKind;
use std::str::FromStr;
use proptest::collection::{btree_map, btree_set, vec};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// A number below eight that depends on the text in no simple way.
pub fn route(text: &str) -> u32 {
    text.bytes().fold(2166136261u32, |h, b| (h ^ b as u32).wrapping_mul(16777619)) >> 29
}

pub type Words = BTreeSet<String>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TF {
    BaseForm(String),
    Reading(String),
    KoreanReading,
    Kana(bool),
    Stem(Option<u8>),
    KeepTags(Words),
    StopTags(Words),
    KeepWords(Words),
    StopWords(Words),
    KoreanKeep(Words),
    KoreanStop(Words),
    Length(Option<usize>, Option<usize>),
    Lower,
    Upper,
    Mapping(BTreeMap<String, String>),
    Compound(String, Words, Option<String>),
    Number(Option<Words>),
}

pub const KINDS: [&str; 5] = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];

impl TF {
    pub fn kind(&self) -> &'static str {
        match self {
            TF::BaseForm(_) => "japanese_base_form",
            TF::Reading(_) => "japanese_reading_form",
            TF::KoreanReading => "korean_reading_form",
            TF::Kana(_) => "japanese_kana",
            TF::Stem(_) => "japanese_katakana_stem",
            TF::KeepTags(_) => "japanese_keep_tags",
            TF::StopTags(_) => "japanese_stop_tags",
            TF::KeepWords(_) => "keep_words",
            TF::StopWords(_) => "stop_words",
            TF::KoreanKeep(_) => "korean_keep_tags",
            TF::KoreanStop(_) => "korean_stop_tags",
            TF::Length(..) => "length",
            TF::Lower => "lowercase",
            TF::Upper => "uppercase",
            TF::Mapping(_) => "mapping",
            TF::Compound(..) => "japanese_compound_word",
            TF::Number(_) => "japanese_number",
        }
    }
    pub fn args(&self) -> Value {
        match self {
            TF::BaseForm(k) | TF::Reading(k) => json!({"kind": k}),
            TF::KoreanReading | TF::Lower | TF::Upper => json!({}),
            TF::Kana(h) => json!({"kind": if *h {"hiragana"} else {"katakana"}}),
            TF::Stem(Some(n)) => json!({"min": n}),
            TF::Stem(None) => json!({}),
            TF::KeepTags(t) | TF::StopTags(t) | TF::KoreanKeep(t) | TF::KoreanStop(t) => json!({"tags": t}),
            TF::KeepWords(t) | TF::StopWords(t) => json!({"words": t}),
            TF::Length(a, b) => {
                let mut v = json!({});
                if let Some(a) = a {
                    v["min"] = json!(a);
                }
                if let Some(b) = b {
                    v["max"] = json!(b);
                }
                v
            }
            TF::Mapping(m) => json!({"mapping": m}),
            TF::Compound(k, t, Some(n)) => json!({"kind": k, "tags": t, "new_tag": n}),
            TF::Compound(k, t, None) => json!({"kind": k, "tags": t}),
            TF::Number(Some(t)) => json!({"tags": t}),
            TF::Number(None) => json!({}),
        }
    }
    pub fn load(&self) -> Result<BoxTokenFilter, String> {
        self.load_by(7)
    }
    /// All the ways to make the filter make the same one.
    pub fn load_by(&self, route: u32) -> Result<BoxTokenFilter, String> {
        let args = self.args();
        catch(|| match route {
            0 => self.from_text(args.to_string().as_bytes()),
            1 => self.by_hand(),
            2 => TokenFilterLoader::load_from_cli_flag(&format!("{}:{args}", self.kind())),
            3 => TokenFilterLoader::load_from_value(self.kind(), &args).map(|f| f.box_clone()),
            _ => TokenFilterLoader::load_from_value(self.kind(), &args),
        })
        .map_err(|p| format!("loading {self:?} (route {route}) {p}"))?
        .map_err(|e| format!("loading {self:?} (route {route}): {e:?}"))
    }
    /// From the text of the configuration.
    fn from_text(&self, b: &[u8]) -> LinderaResult<BoxTokenFilter> {
        Ok(match self {
            TF::BaseForm(_) => JapaneseBaseFormTokenFilter::from_slice(b)?.into(),
            TF::Reading(_) => JapaneseReadingFormTokenFilter::from_slice(b)?.into(),
            TF::KoreanReading => KoreanReadingFormTokenFilter::default().into(),
            TF::Kana(_) => JapaneseKanaTokenFilter::from_slice(b)?.into(),
            TF::Stem(_) => JapaneseKatakanaStemTokenFilter::from_slice(b)?.into(),
            TF::KeepTags(_) => JapaneseKeepTagsTokenFilter::from_slice(b)?.into(),
            TF::StopTags(_) => JapaneseStopTagsTokenFilter::from_slice(b)?.into(),
            TF::KeepWords(_) => KeepWordsTokenFilter::from_slice(b)?.into(),
            TF::StopWords(_) => StopWordsTokenFilter::from_slice(b)?.into(),
            TF::KoreanKeep(_) => KoreanKeepTagsTokenFilter::from_slice(b)?.into(),
            TF::KoreanStop(_) => KoreanStopTagsTokenFilter::from_slice(b)?.into(),
            TF::Length(..) => LengthTokenFilter::from_slice(b)?.into(),
            TF::Lower => LowercaseTokenFilter::default().into(),
            TF::Upper => UppercaseTokenFilter::default().into(),
            TF::Mapping(_) => MappingTokenFilter::from_slice(b)?.into(),
            TF::Compound(..) => JapaneseCompoundWordTokenFilter::from_slice(b)?.into(),
            TF::Number(_) => JapaneseNumberTokenFilter::from_slice(b)?.into(),
        })
    }
    /// With the constructors.
    fn by_hand(&self) -> LinderaResult<BoxTokenFilter> {
        let dic = |k: &str| DictionaryKind::from_str(k).expect("a known kind");
        let set = |w: &Words| w.iter().cloned().collect();
        Ok(match self {
            TF::BaseForm(k) => JapaneseBaseFormTokenFilter::new(JapaneseBaseFormTokenFilterConfig::new(dic(k))).into(),
            TF::Reading(k) => JapaneseReadingFormTokenFilter::new(JapaneseReadingFormTokenFilterConfig::new(dic(k))).into(),
            TF::KoreanReading => KoreanReadingFormTokenFilter::new().into(),
            TF::Kana(h) => {
                JapaneseKanaTokenFilter::new(JapaneseKanaTokenFilterConfig::new(if *h { KanaKind::Hiragana } else { KanaKind::Katakana })).into()
            }
            TF::Stem(n) => {
                let n = std::num::NonZeroUsize::new(n.unwrap_or(3) as usize).expect("not zero");
                JapaneseKatakanaStemTokenFilter::new(JapaneseKatakanaStemTokenFilterConfig::new(n)).into()
            }
            TF::KeepTags(w) => JapaneseKeepTagsTokenFilter::new(JapaneseKeepTagsTokenFilterConfig::new(set(w))).into(),
            TF::StopTags(w) => JapaneseStopTagsTokenFilter::new(JapaneseStopTagsTokenFilterConfig::new(set(w))).into(),
            TF::KeepWords(w) => KeepWordsTokenFilter::new(KeepWordsTokenFilterConfig::new(set(w))).into(),
            TF::StopWords(w) => StopWordsTokenFilter::new(StopWordsTokenFilterConfig::new(set(w))).into(),
            TF::KoreanKeep(w) => KoreanKeepTagsTokenFilter::new(KoreanKeepTagsTokenFilterConfig::new(set(w))).into(),
            TF::KoreanStop(w) => KoreanStopTagsTokenFilter::new(KoreanStopTagsTokenFilterConfig::new(set(w))).into(),
            TF::Length(a, b) => LengthTokenFilter::new(LengthTokenFilterConfig::new(*a, *b)).into(),
            TF::Lower => LowercaseTokenFilter::new().into(),
            TF::Upper => UppercaseTokenFilter::new().into(),
            TF::Mapping(m) => {
                MappingTokenFilter::new(MappingTokenFilterConfig::new(m.iter().map(|(a, b)| (a.clone(), b.clone())).collect()))?.into()
            }
            TF::Compound(k, t, n) => {
                JapaneseCompoundWordTokenFilter::new(JapaneseCompoundWordTokenFilterConfig::new(dic(k), set(t), n.clone())?).into()
            }
            TF::Number(t) => JapaneseNumberTokenFilter::new(JapaneseNumberTokenFilterConfig::new(t.as_ref().map(set))).into(),
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct T {
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub pos: usize,
    pub len: usize,
    pub id: (u32, bool),
    pub details: Vec<String>,
}

impl T {
    pub fn real(&self) -> Token {
        Token {
            text: self.text.clone(),
            byte_start: self.start,
            byte_end: self.end,
            position: self.pos,
            position_length: self.len,
            word_id: WordId(self.id.0, self.id.1),
            details: self.details.clone(),
        }
    }
    pub fn of(t: &Token) -> T {
        T {
            text: t.text.clone(),
            start: t.byte_start,
            end: t.byte_end,
            pos: t.position,
            len: t.position_length,
            id: (t.word_id.0, t.word_id.1),
            details: t.details.clone(),
        }
    }
}

// --------------------------------------------------------------------------------------- models

/// The four levels a configured tag stands for.
fn levels(tag: &str) -> [String; 4] {
    let mut out = ["*", "*", "*", "*"].map(String::from);
    for (o, l) in out.iter_mut().zip(tag.split(',')) {
        *o = l.to_string();
    }
    out
}

pub fn tagged(t: &T, tags: &Words) -> bool {
    let n = if t.details.len() >= 4 { 4 } else { t.details.len().min(1) };
    let mut have = ["*", "*", "*", "*"].map(String::from);
    for (h, d) in have.iter_mut().zip(&t.details[..n]) {
        *h = d.clone();
    }
    tags.iter().any(|x| levels(x) == have)
}

fn kana(c: char, hira: bool) -> char {
    let u = c as u32;
    let v = if hira {
        match u {
            0x30A1..=0x30F6 | 0x30FD..=0x30FF => u - 0x60,
            _ => u,
        }
    } else {
        match u {
            0x3041..=0x3096 | 0x309D..=0x309F => u + 0x60,
            _ => u,
        }
    };
    char::from_u32(v).unwrap()
}

fn unknown(t: &T) -> bool {
    t.details.first().map(|d| d == "UNK").unwrap_or(false)
}

pub fn is_numeral(c: char) -> bool {
    "0123456789０１２３４５６７８９〇零一壱二弐三参四五六七八九十拾百千万億兆京垓".contains(c)
}

/// The reference model; `None` text means the text is judged by other means (numbers).
pub fn model(f: &TF, ts: &[T]) -> Vec<T> {
    let map = |g: &dyn Fn(&T) -> String| -> Vec<T> { ts.iter().map(|t| T { text: g(t), ..t.clone() }).collect() };
    let keep = |g: &dyn Fn(&T) -> bool| -> Vec<T> { ts.iter().filter(|t| g(t)).cloned().collect() };
    let col = |t: &T, i: Option<usize>| match i {
        Some(i) if !unknown(t) && i < t.details.len() => t.details[i].clone(),
        _ => t.text.clone(),
    };
    match f {
        TF::BaseForm(k) => {
            let i = match k.as_str() {
                "ipadic" | "ipadic-neologd" => Some(6),
                "unidic" => Some(10),
                _ => None,
            };
            map(&|t| col(t, i))
        }
        TF::Reading(k) => {
            let i = match k.as_str() {
                "ipadic" | "ipadic-neologd" => Some(7),
                "unidic" => Some(6),
                _ => None,
            };
            map(&|t| col(t, i))
        }
        TF::KoreanReading => map(&|t| col(t, Some(3))),
        TF::Kana(h) => map(&|t| t.text.chars().map(|c| kana(c, *h)).collect()),
        TF::Stem(m) => {
            let m = m.unwrap_or(3) as usize;
            map(&|t| {
                let cs: Vec<char> = t.text.chars().collect();
                if cs.len() > m && cs.last() == Some(&'ー') && cs.iter().all(|c| ('\u{30A0}'..='\u{30FF}').contains(c)) {
                    cs[..cs.len() - 1].iter().collect()
                } else {
                    t.text.clone()
                }
            })
        }
        TF::KeepTags(w) => keep(&|t| tagged(t, w)),
        TF::StopTags(w) => keep(&|t| !tagged(t, w)),
        TF::KeepWords(w) => keep(&|t| w.iter().any(|x| *x == t.text)),
        TF::StopWords(w) => keep(&|t| !w.iter().any(|x| *x == t.text)),
        TF::KoreanKeep(w) => keep(&|t| w.iter().any(|x| Some(x) == t.details.first())),
        TF::KoreanStop(w) => keep(&|t| !w.iter().any(|x| Some(x) == t.details.first())),
        TF::Length(a, b) => keep(&|t| {
            let n = t.text.chars().count();
            a.map_or(true, |a| n >= a) && b.map_or(true, |b| n <= b)
        }),
        TF::Lower => map(&|t| t.text.to_lowercase()),
        TF::Upper => map(&|t| t.text.to_uppercase()),
        TF::Mapping(m) => {
            let f = crate::chars::CF::Mapping(m.clone());
            map(&|t| crate::chars::model(&f, &t.text).text)
        }
        TF::Number(_) => ts.to_vec(),
        TF::Compound(k, tags, new_tag) => {
            let mut out: Vec<T> = vec![];
            let mut i = 0;
            while i < ts.len() {
                let n = ts[i..].iter().take_while(|t| tagged(t, tags)).count();
                if n < 2 {
                    out.push(ts[i].clone());
                    i += 1;
                    continue;
                }
                let run = &ts[i..i + n];
                let mut details = vec!["*".to_string(); if k == "unidic" { 17 } else { 9 }];
                details[0] = "複合語".into();
                if let Some(t) = new_tag {
                    for (d, l) in details.iter_mut().zip(levels(t)) {
                        *d = l;
                    }
                }
                out.push(T {
                    text: run.iter().map(|t| t.text.as_str()).collect(),
                    start: run[0].start,
                    end: run[n - 1].end,
                    pos: run[0].pos,
                    len: run.iter().map(|t| t.len).sum(),
                    id: run[0].id,
                    details,
                });
                i += n;
            }
            out
        }
    }
}

/// Apply the real filter to a list.
pub fn apply(f: &TF, real: &BoxTokenFilter, ts: &[T]) -> Result<Vec<T>, String> {
    let mut v: Vec<Token> = ts.iter().map(T::real).collect();
    catch(|| real.apply(&mut v))
        .map_err(|p| format!("{f:?} on {} tokens {p}", ts.len()))?
        .map_err(|e| format!("{f:?}: {e:?}"))?;
    Ok(v.iter().map(T::of).collect())
}

pub fn compare(f: &TF, input: &[T], got: &[T], want: &[T]) -> CheckResult {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            let texts: Vec<&str> = input.iter().map(|t| t.text.as_str()).collect();
            return Err(format!("{f:?} on tokens {texts:?}: token {i} is {:?} instead of {:?}", got.get(i), want.get(i)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ generators

pub const TAGS: &[&str] = &["名詞", "動詞", "一般", "数", "*", "複合語", "UNK", "", "JX", "NNG", "カ", "接尾", "名", "名詞 "];

pub fn tag_level() -> BoxedStrategy<String> {
    prop_oneof![14 => select(TAGS).prop_map(String::from), 1 => any_text(3)].boxed()
}

pub fn word_text() -> BoxedStrategy<String> {
    let kata: Vec<char> = ('\u{30A0}'..='\u{30FF}').collect();
    let hira: Vec<char> = ('\u{3040}'..='\u{309F}').chain(['ー', 'ｱ', 'ﾞ', '\u{1B000}', '\u{31F0}']).collect();
    let cased: Vec<char> = "aAzZßẞİıiIΣσςΑΐŉǆǅﬁéÉ\u{307}\u{345}ꭰᏐⅷⓐＡａ𐐀𐐨'.".chars().collect();
    prop_oneof![
        3 => any_text(6),
        2 => vec(select(kata.clone()), 0..=5usize).prop_map(|v| v.into_iter().collect()),
        2 => (vec(select(kata), 0..=4usize), 1..=2usize).prop_map(|(v, n)| v.into_iter().chain(std::iter::repeat('ー').take(n)).collect()),
        1 => vec(select(hira), 0..=5usize).prop_map(|v| v.into_iter().collect()),
        2 => vec(select(cased), 0..=5usize).prop_map(|v| v.into_iter().collect()),
        1 => vec(any::<char>(), 0..=4usize).prop_map(|v| v.into_iter().collect()),
        2 => select(&["東京", "東", "京", "ab", "a", "", "コーヒー", "カー", "AB", "Ab"][..]).prop_map(String::from),
    ]
    .boxed()
}

fn details() -> BoxedStrategy<Vec<String>> {
    let n = prop_oneof![4 => Just(9usize), 3 => Just(17usize), 2 => Just(4usize), 2 => Just(8usize), 4 => 1..=20usize];
    prop_oneof![
        8 => n.prop_flat_map(|n| (vec(tag_level(), n.min(4)), vec(prop_oneof![2 => Just("*".to_string()), 3 => word_text()], n - n.min(4))))
            .prop_map(|(mut a, b)| { a.extend(b); a }),
        1 => Just(vec!["UNK".to_string()]),
        1 => Just(vec![]),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TfCase {
    pub filter: TF,
    pub tokens: Vec<T>,
}

/// Token lists whose consecutive byte ranges touch or leave gaps, with few distinct tags.
pub fn tokens(max: usize) -> BoxedStrategy<Vec<T>> {
    let tok = (word_text(), details(), 0usize..3, 1usize..4, any::<(u16, bool)>(), any::<u16>());
    (vec(tok, 0..=max), vec(details(), 1..=3usize), any::<u8>())
        .prop_map(|(v, common, share)| {
            let (mut at, mut pos) = (0, 0);
            v.into_iter()
                .map(|(text, mut details, gap, len, id, pick)| {
                    if (pick & 0xFF) as u8 <= share {
                        details = common[(pick >> 8) as usize % common.len()].clone();
                    }
                    let start = at + gap;
                    at = start + text.len();
                    let t = T { end: at, text, start, pos, len, id: (id.0 as u32, id.1), details };
                    pos += len;
                    t
                })
                .collect()
        })
        .boxed()
}

/// Tags: prefixes of the tokens' own levels (so that they match), padded or not, or unrelated ones.
fn tag_set(ts: &[T], picks: &[(u16, u8, Vec<String>)]) -> Words {
    picks
        .iter()
        .map(|(i, how, other)| {
            if ts.is_empty() || *how >= 10 {
                return other.join(",");
            }
            let d = &ts[(*i as usize * ts.len()) >> 16].details;
            if d.is_empty() {
                return ["*", "*,*,*,*", ""][*how as usize % 3].to_string();
            }
            let n = if d.len() >= 4 { 4 } else { 1 };
            let mut l: Vec<&str> = d[..n].iter().map(|s| s.as_str()).collect();
            match how {
                0..=3 => {
                    // drop trailing "*"
                    while l.len() > 1 && l.last() == Some(&"*") {
                        l.pop();
                    }
                }
                4 => l.truncate(1),
                5 => l.truncate(2),
                6 => l.truncate(3),
                7 => l = d.iter().map(|s| s.as_str()).collect(),
                8 => l.extend(["*", "x"]),
                _ => {}
            }
            l.join(",")
        })
        .collect()
}

fn tag_picks() -> BoxedStrategy<Vec<(u16, u8, Vec<String>)>> {
    vec((any::<u16>(), 0u8..12, vec(tag_level(), 1..=5usize)), 0..=4usize).boxed()
}

pub fn dic_kind() -> BoxedStrategy<String> {
    select(&KINDS[..]).prop_map(String::from).boxed()
}

pub fn select_case() -> BoxedStrategy<TfCase> {
    (tokens(8), tag_picks(), 0u8..7, vec(any::<u16>(), 0..=3usize), btree_set(word_text(), 0..=3usize), any::<[Option<u8>; 2]>())
        .prop_map(|(tokens, picks, which, words, mut other, len)| {
            let n = tokens.len();
            if n > 0 && which <= 5 {
                for w in words {
                    other.insert(tokens[(w as usize * n) >> 16].text.clone());
                }
            }
            let korean = || -> Words {
                picks.iter().map(|(i, how, o)| if n > 0 && *how < 9 { tokens[(*i as usize * n) >> 16].details.first().cloned().unwrap_or_default() } else { o[0].clone() }).collect()
            };
            let filter = match which {
                0 => TF::KeepTags(tag_set(&tokens, &picks)),
                1 => TF::StopTags(tag_set(&tokens, &picks)),
                2 => TF::KeepWords(other),
                3 => TF::StopWords(other),
                4 => TF::KoreanKeep(korean()),
                5 => TF::KoreanStop(korean()),
                _ => TF::Length(len[0].map(|x| x as usize % 7), len[1].map(|x| x as usize % 7)),
            };
            TfCase { filter, tokens }
        })
        .boxed()
}

pub fn rewrite_filter() -> BoxedStrategy<TF> {
    prop_oneof![
        3 => dic_kind().prop_map(TF::BaseForm),
        3 => dic_kind().prop_map(TF::Reading),
        1 => Just(TF::KoreanReading),
        3 => any::<bool>().prop_map(TF::Kana),
        3 => prop_oneof![2 => Just(None), 3 => (1u8..7).prop_map(Some), 1 => Just(Some(255))].prop_map(TF::Stem),
        1 => Just(TF::Lower),
        1 => Just(TF::Upper),
        3 => btree_map(word_text().prop_map(|s| s.chars().filter(|c| *c != '\0').take(3).collect::<String>()), word_text(), 0..=6usize)
            .prop_map(|mut m| { m.remove(""); TF::Mapping(m) }),
    ]
    .boxed()
}

pub fn rewrite_case() -> BoxedStrategy<TfCase> {
    (tokens(6), rewrite_filter(), vec((any::<u16>(), any::<u16>()), 0..=4usize))
        .prop_map(|(mut tokens, filter, plant)| {
            if let TF::Mapping(m) = &filter {
                // put keys into the texts
                for (i, k) in plant {
                    if m.is_empty() || tokens.is_empty() {
                        break;
                    }
                    let n = tokens.len();
                    let key = m.keys().nth((k as usize * m.len()) >> 16).unwrap();
                    tokens[(i as usize * n) >> 16].text.push_str(key);
                }
            }
            TfCase { filter, tokens }
        })
        .boxed()
}

pub fn compound_case() -> BoxedStrategy<TfCase> {
    (tokens(10), tag_picks(), dic_kind(), prop_oneof![
        1 => Just(None),
        2 => vec(tag_level(), 1..=6usize).prop_map(|v| Some(v.join(","))),
    ])
        .prop_map(|(tokens, picks, kind, new_tag)| TfCase { filter: TF::Compound(kind, tag_set(&tokens, &picks), new_tag), tokens })
        .boxed()
}

/// A tag set for some of the tokens.
pub fn tags_for(tokens: &[T], picks: &[(u16, u8, Vec<String>)]) -> Words {
    tag_set(tokens, picks)
}
pub fn picks() -> BoxedStrategy<Vec<(u16, u8, Vec<String>)>> {
    tag_picks()
}

/// Long lists of tokens, some with long texts, and large sets of words.
pub fn large_case(case: BoxedStrategy<TfCase>) -> BoxedStrategy<TfCase> {
    (case, crate::chars::growth(), 1usize..400, vec(any::<u16>(), 0..=2usize), 0usize..400)
        .prop_map(|(mut c, g, times, long, more)| {
            let n = c.tokens.len();
            if n == 0 {
                return c;
            }
            for i in long {
                let t = &mut c.tokens[(i as usize * n) >> 16];
                t.text = g.grow(&t.text, 3_000, 70_000);
            }
            let total: usize = c.tokens.iter().map(|t| t.text.len()).sum();
            let times = times.min(200_000 / (total + 100)).max(1);
            let (mut at, mut pos, mut out) = (0, 0, vec![]);
            for k in 0..times {
                let mut end = 0;
                for (i, t) in c.tokens.iter().enumerate() {
                    let mut t = t.clone();
                    let gap = if i == 0 { 0 } else { t.start.saturating_sub(end) };
                    end = t.end;
                    t.start = at + gap;
                    t.end = t.start + t.text.len();
                    at = t.end;
                    t.pos = pos;
                    pos += t.len;
                    t.id.0 = t.id.0.wrapping_add(k as u32 * 7);
                    out.push(t);
                }
            }
            let texts: Vec<String> = c.tokens.iter().map(|t| t.text.clone()).collect();
            match &mut c.filter {
                TF::KeepWords(w) | TF::StopWords(w) => {
                    w.extend((0..more).map(|i| format!("語{i}")));
                    w.extend(texts.into_iter().skip(n / 2));
                }
                TF::KeepTags(w) | TF::StopTags(w) => w.extend((0..more).map(|i| format!("名詞,{i}"))),
                TF::KoreanKeep(w) | TF::KoreanStop(w) => w.extend((0..more).map(|i| format!("N{i}"))),
                TF::Length(a, b) => {
                    if more > 300 {
                        *a = a.map(|a| a * 50);
                        *b = b.map(|b| b * 50 + more);
                    }
                }
                _ => {}
            }
            c.tokens = out;
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------------------- numerals

/// How one number below 10^24 is written.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Written {
    /// groups of four decimal digits, least significant first
    pub groups: Vec<u16>,
    /// per group: style (0: kanji units, 1: plain digits), and seeds for variants
    pub style: Vec<u8>,
    pub variants: Vec<u8>,
    /// digit by digit instead of units
    pub positional: bool,
    /// leading zeros (positional only)
    pub zeros: u8,
}

const BIG: [&str; 6] = ["", "万", "億", "兆", "京", "垓"];

impl Written {
    /// (written form, number in Arabic digits)
    pub fn show(&self) -> (String, String) {
        let mut dec = String::new();
        for g in self.groups.iter().rev() {
            dec.push_str(&format!("{:04}", g % 10000));
        }
        let dec = dec.trim_start_matches('0').to_string();
        let dec = if dec.is_empty() { "0".to_string() } else { dec };
        let mut vi = 0;
        let mut next = || {
            vi += 1;
            self.variants.get((vi - 1) % self.variants.len().max(1)).copied().unwrap_or(0)
        };
        const D: [&[char]; 10] = [
            &['〇', '零', '0', '０'], &['一', '壱', '1', '１'], &['二', '弐', '2', '２'], &['三', '参', '3', '３'],
            &['四', '4', '４'], &['五', '5', '５'], &['六', '6', '６'], &['七', '7', '７'], &['八', '8', '８'], &['九', '9', '９'],
        ];
        if self.positional || dec == "0" {
            let full = format!("{}{}", "0".repeat(if self.positional { self.zeros as usize } else { 0 }), dec);
            let s = full.chars().map(|c| { let d = D[c.to_digit(10).unwrap() as usize]; d[next() as usize % d.len()] }).collect();
            return (s, full);
        }
        let mut out = String::new();
        for i in (0..self.groups.len()).rev() {
            let g = self.groups[i] % 10000;
            if g == 0 {
                continue;
            }
            let style = self.style.get(i).copied().unwrap_or(0);
            if g == 1 && i > 0 && style & 2 != 0 {
                out.push_str(BIG[i]);
                continue;
            }
            if style & 1 == 1 {
                for c in g.to_string().chars() {
                    let d = D[c.to_digit(10).unwrap() as usize];
                    out.push(d[next() as usize % d.len()]);
                }
            } else {
                for (unit, div) in [("千", 1000), ("百", 100), ("十", 10), ("", 1)] {
                    let d = (g / div % 10) as usize;
                    let v = next();
                    if d == 0 {
                        continue;
                    }
                    if d > 1 || div == 1 || v & 0x40 != 0 {
                        out.push(D[d][v as usize % D[d].len()]);
                    }
                    out.push_str(if unit == "十" && v & 0x20 != 0 { "拾" } else { unit });
                }
            }
            out.push_str(BIG[i]);
        }
        (out, dec)
    }
}

pub fn written() -> BoxedStrategy<Written> {
    let group = prop_oneof![3 => 0u16..10000, 2 => Just(0u16), 2 => Just(1u16), 1 => select(&[10u16, 100, 1000, 11, 110, 1001, 1111, 20, 300, 9999][..])];
    (vec(group, 1..=6usize), vec(any::<u8>(), 6), vec(any::<u8>(), 0..=24usize), prop::bool::weighted(0.25), prop_oneof![3 => Just(0u8), 1 => 0u8..6])
        .prop_map(|(groups, style, variants, positional, zeros)| Written { groups, style, variants, positional, zeros })
        .boxed()
}
