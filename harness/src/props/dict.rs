//! P06-P11: dictionary building and loading.
use super::tok::check_tiling;
use crate::dicts::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::prefix_dict::PrefixDict;
use lindera_dictionary::{DictionaryLoader, UserDictionaryConfig};
use lindera_tokenizer::tokenizer::Tokenizer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::Path;

pub(super) type Meaning = (u16, u16, i16, Vec<String>);

/// what a surface means to a lexicon
pub(super) struct Lex<'a> {
    pub(super) by: BTreeMap<String, Vec<Meaning>>,
    pub(super) details: &'a dyn Fn(usize) -> Option<Vec<String>>,
    pub(super) system: bool,
}

impl Lex<'_> {
    fn entry(&self, e: &lindera_core::word_entry::WordEntry) -> Result<Meaning, String> {
        if e.word_id.1 != self.system || e.word_id.0 == u32::MAX {
            return Err(format!("entry {e:?} has a word id of the wrong kind"));
        }
        let d = (self.details)(e.word_id.0 as usize).ok_or_else(|| format!("entry {e:?} has no details"))?;
        Ok((e.left_id, e.right_id, e.word_cost, d))
    }
    fn exact(&self, dict: &PrefixDict, s: &str) -> CheckResult {
        let mut got = vec![];
        let mut ids = HashSet::new();
        for e in dict.find_surface(s) {
            got.push(self.entry(&e)?);
            if !ids.insert(e.word_id.0) {
                return Err(format!("surface {s:?}: two entries share word id {}", e.word_id.0));
            }
        }
        got.sort();
        let mut want = self.by.get(s).cloned().unwrap_or_default();
        want.sort();
        if got != want {
            return Err(format!("surface {s:?}: looked up {got:?}, the rows are {want:?}"));
        }
        Ok(())
    }
    fn prefixes(&self, dict: &PrefixDict, text: &str) -> Result<usize, String> {
        let mut got: Vec<(usize, Meaning)> = vec![];
        for (n, e) in dict.prefix(text) {
            got.push((n, self.entry(&e)?));
        }
        let mut want: Vec<(usize, Meaning)> = vec![];
        for (n, _) in text.char_indices().skip(1).chain(std::iter::once((text.len(), ' '))) {
            for m in self.by.get(&text[..n]).into_iter().flatten() {
                want.push((n, m.clone()));
            }
        }
        if text.is_empty() {
            want.clear();
        }
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("prefixes of {text:?}: found {got:?}, the rows are {want:?}"));
        }
        Ok(want.len())
    }
    pub(super) fn all(&self, dict: &PrefixDict, texts: &[String], o: &mut Obs) -> CheckResult {
        let surfaces: Vec<&String> = self.by.keys().collect();
        let mut near: BTreeSet<String> = BTreeSet::new();
        for s in &surfaces {
            self.exact(dict, s)?;
            self.prefixes(dict, s)?;
            o.steps += 2;
            let mut t: Vec<char> = s.chars().collect();
            let l = t.pop();
            near.insert(t.iter().collect());
            if let Some(l) = l {
                t.push(l);
                t.push(l);
                near.insert(t.iter().collect());
                t.pop();
                t.pop();
                t.push(char::from_u32(l as u32 ^ 1).unwrap_or('x'));
                near.insert(t.iter().collect());
            }
        }
        for s in &near {
            if !s.is_empty() {
                self.exact(dict, s)?;
                o.steps += 1;
            }
        }
        for t in texts {
            if !t.is_empty() {
                self.exact(dict, t)?;
            }
            for (i, _) in t.char_indices().take(60) {
                let n = self.prefixes(dict, &t[i..])?;
                o.label_if(n >= 3, "three-prefixes");
                o.steps += 1;
            }
        }
        Ok(())
    }
}

fn sys_lexicon(spec: &DictSpec) -> BTreeMap<String, Vec<Meaning>> {
    let mut by: BTreeMap<String, Vec<Meaning>> = BTreeMap::new();
    for r in &spec.rows {
        by.entry(norm(spec.kind, &r.surface)).or_default().push((
            r.left,
            r.right,
            r.cost,
            r.details.iter().map(|d| norm(spec.kind, d)).collect(),
        ));
    }
    by
}

fn check_lexicon(spec: &DictSpec, d: &Dictionary, texts: &[String], o: &mut Obs) -> CheckResult {
    let by = sys_lexicon(spec);
    o.label_if(by.values().any(|v| v.len() > 1), "homographs");
    o.label_if(by.values().any(|v| v.len() >= 16), "16-homographs");
    o.label_if(by.values().any(|v| v.len() == 31), "31-homographs");
    o.label_if(spec.rows.iter().any(|r| norm(spec.kind, &r.surface) != r.surface), "normalised");
    o.label_if(spec.files > 1, "several-files");
    let f = |i| d.word_details(i);
    Lex { by, details: &f, system: true }.all(&d.dict, texts, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LexCase {
    base: TokCase,
    /// 0 plain, 1 padded numbers, 2 everything quoted, 3 CRLF line ends
    style: u8,
    /// CC-CEDICT only: positions of rows without usable numbers
    broken: Vec<(u16, u8)>,
    /// how the source directory and its CSV files are called
    naming: u8,
    /// the second build goes into a directory holding older, longer files
    stale: bool,
}

const DIRS: &[&str] = &["src", "s[1]", "a*b", "what?", "辞書 v2", "[!x]", "[", "d.csv", "x/../y"];

fn csv_name(naming: u8, f: usize) -> String {
    match naming / 16 % 5 {
        0 => format!("lex{f}.csv"),
        1 => format!("{f}.Noun.adj.csv"),
        2 => format!("名詞{f}.csv"),
        3 => format!("{f} [x]*.csv"),
        _ => format!("{}.csv", ["Z", "a", "B", "0"][f % 4]),
    }
}

fn styled_files(c: &LexCase) -> Vec<(String, String)> {
    let spec = &c.base.dict;
    let n = spec.files.max(1);
    let mut out: Vec<(String, Vec<String>)> = (0..n).map(|f| (csv_name(c.naming, f), vec![])).collect();
    for (i, r) in spec.rows.iter().enumerate() {
        let line = match c.style {
            1 => {
                let mut v = vec![csv_field(&r.surface), format!(" {}", r.left), format!("{} ", r.right), format!(" {} ", r.cost)];
                v.extend(r.details.iter().map(|d| csv_field(d)));
                v.join(",")
            }
            2 => {
                let mut v = vec![r.surface.clone(), r.left.to_string(), r.right.to_string(), r.cost.to_string()];
                v.extend(r.details.clone());
                v.iter().map(|f| format!("\"{}\"", f.replace('"', "\"\""))).collect::<Vec<_>>().join(",")
            }
            _ => DictSpec::row_line(r),
        };
        out[i % n].1.push(line);
    }
    if spec.kind == Kind::CcCedict {
        for (k, (pos, how)) in c.broken.iter().enumerate() {
            let f = k % n;
            let at = (*pos as usize * (out[f].1.len() + 1)) >> 16;
            let nums = match how % 6 {
                0 => "x,0,1",
                1 => "0,,1",
                2 => "0,0,z",
                3 => "65536,0,0",
                4 => "0,-1,0",
                _ => "0,0,40000",
            };
            let surf = spec.rows[*pos as usize % spec.rows.len()].surface.clone();
            out[f].1.insert(at, format!("{},{nums},broken", csv_field(&surf)));
        }
    }
    let eol = if c.style == 3 { "\r\n" } else { "\n" };
    out.into_iter().map(|(n, l)| (n, l.iter().map(|x| format!("{x}{eol}")).collect())).collect()
}

pub(super) fn read_dir(d: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(d)
        .unwrap()
        .map(|e| {
            let e = e.unwrap();
            (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap())
        })
        .collect()
}

fn p06_check(c: &LexCase, o: &mut Obs) -> CheckResult {
    let spec = &c.base.dict;
    let sc = Scratch::new();
    let dir = DIRS[c.naming as usize % 16 % DIRS.len()];
    if dir.contains("..") {
        std::fs::create_dir(sc.path().join("x")).unwrap();
        std::fs::create_dir(sc.path().join("y")).unwrap();
    }
    let src = sc.path().join(dir);
    spec.write_sources(&src);
    for f in 0..spec.files.max(1) {
        std::fs::remove_file(src.join(format!("lex{f}.csv"))).unwrap();
    }
    for (n, t) in styled_files(c) {
        std::fs::write(src.join(n), spec.encode(&t)).unwrap();
    }
    if c.naming >= 128 {
        // files that are no lexicon of this source
        let other = spec.encode("おとり,0,0,0,x\n");
        for n in ["lex0.csv.bak", "lex0.csv~", "csv", "notes.txt", "x.csvx"] {
            std::fs::write(src.join(n), &other).unwrap();
        }
        std::fs::create_dir(src.join("sub")).unwrap();
        std::fs::write(src.join("sub").join("lex9.csv"), &other).unwrap();
        for n in ["s1", "aXb", "whatX"] {
            let d = sc.path().join(n);
            let _ = std::fs::create_dir(&d);
            std::fs::write(d.join("lex0.csv"), &other).unwrap();
        }
        o.label("decoys");
    }
    let (a, b) = (sc.path().join("a"), sc.path().join("b"));
    let bld = spec.kind.builder();
    bld.build_dictionary(&src, &a).map_err(|e| format!("building a valid dictionary from {dir:?} failed: {e:?}"))?;
    if c.stale {
        std::fs::create_dir(&b).unwrap();
        for (n, v) in read_dir(&a) {
            std::fs::write(b.join(n), vec![0xAB; v.len() * 2 + 100]).unwrap();
        }
        o.label("over-older-files");
    }
    bld.build_dictionary(&src, &b).map_err(|e| format!("building a second time failed: {e:?}"))?;
    let (fa, fb) = (read_dir(&a), read_dir(&b));
    if fa != fb {
        let n: Vec<&String> = fa.keys().filter(|k| fa.get(*k) != fb.get(*k)).collect();
        return Err(format!("two builds of the same sources differ in {n:?}"));
    }
    let d = DictionaryLoader::load_dictionary(a).map_err(|e| format!("loading a built dictionary failed: {e:?}"))?;
    check_lexicon(spec, &d, &c.base.texts, o)?;
    if !sys_lexicon(spec).contains_key("おとり") && !d.dict.find_surface("おとり").is_empty() {
        return Err(format!("a file that is no lexicon of {dir:?} was read"));
    }
    o.label(match c.style { 1 => "padded", 2 => "quoted", 3 => "crlf", _ => "plain" });
    o.label_if(spec.kind == Kind::CcCedict && !c.broken.is_empty(), "skipped-rows");
    o.label(spec.kind.name());
    let by = sys_lexicon(spec);
    let keys: Vec<&String> = by.keys().collect();
    // sorted neighbours: one a prefix of the next, and homographs
    o.nontrivial = keys.windows(2).any(|w| w[1].starts_with(w[0].as_str())) && by.values().any(|v| v.len() > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct BigCase {
    kind: Kind,
    n: u32,
    step: u32,
    alpha: Vec<char>,
}

fn big_spec(c: &BigCase) -> DictSpec {
    let k = c.alpha.len() as u32;
    let rows = (0..c.n)
        .map(|i| {
            // surfaces: digits of a multiplicative permutation, with repetitions every 7th row
            let mut v = (if i % 7 == 3 { i - 3 } else { i }).wrapping_mul(c.step) % 1_000_003;
            let mut s = String::new();
            loop {
                s.push(c.alpha[(v % k) as usize]);
                v /= k;
                if v == 0 {
                    break;
                }
            }
            Row { surface: s, left: (i % 5) as u16, right: (i % 3) as u16, cost: (i % 60000) as i32 as u16 as i16, details: vec![format!("r{i}"), format!("d{}", i % 11)] }
        })
        .collect();
    DictSpec {
        kind: c.kind,
        cats: vec![Cat { name: "DEFAULT".into(), invoke: false, group: true, length: 0 }],
        ranges: vec![],
        unk: vec![(0, 0, 0, 100)],
        fwd: 3,
        bwd: 5,
        costs: vec![],
        rows,
        files: 2,
    }
}

pub(super) fn big_dict(c: &BigCase) -> Option<DictSpec> {
    let spec = big_spec(c);
    let max = sys_lexicon(&spec).values().map(|v| v.len()).max().unwrap_or(0);
    (max <= 31).then_some(spec)
}

fn p06_big(c: &BigCase, o: &mut Obs) -> CheckResult {
    let spec = big_spec(c);
    let max = sys_lexicon(&spec).values().map(|v| v.len()).max().unwrap_or(0);
    if max > 31 {
        return Ok(());
    }
    let d = spec.build()?;
    check_lexicon(&spec, &d, &[], o)?;
    o.label_if(c.n > 65536, "over-65536-rows");
    o.nontrivial = c.n > 1000;
    Ok(())
}

/// Rows whose details are longer than 16 bits can count.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongCase {
    kind: Kind,
    /// surface, and the length in characters of each detail
    rows: Vec<(u8, Vec<u32>)>,
    c: char,
    user: bool,
}

fn p06_long(c: &LongCase, o: &mut Obs) -> CheckResult {
    let mut spec = big_spec(&BigCase { kind: c.kind, n: 1, step: 1, alpha: vec!['x'] });
    let n = c.kind.detail_cols();
    spec.rows = c
        .rows
        .iter()
        .enumerate()
        .map(|(i, (s, lens))| {
            let mut details: Vec<String> = lens.iter().map(|l| c.c.to_string().repeat(*l as usize)).collect();
            details.insert(0, format!("r{i}"));
            details.resize(n, "*".into());
            Row { surface: match *s % 7 {
                    4 => "あ".repeat(86),
                    5 => "い".repeat(400),
                    6 => "あ".repeat(22_000),
                    k => ["あ", "い", "あい", "いああ"][k as usize].into(),
                }, left: 0, right: 0, cost: i as i16, details }
        })
        .collect();
    let long = spec.rows.iter().map(|r| r.details.iter().map(|d| d.len() + 9).sum::<usize>()).max().unwrap_or(0);
    o.label_if(long > 65_535, "details over 65535 bytes");
    o.label_if(long > 1 << 20, "details over 1 MiB");
    o.nontrivial = long > 65_535;
    let short = |r: CheckResult| r.map_err(|e| if e.len() > 3000 { format!("{}… ({} bytes)", e.chars().take(600).collect::<String>(), e.len()) } else { e });
    if c.user {
        let rows: Vec<URow> = spec
            .rows
            .iter()
            .map(|r| URow::Detailed { surface: r.surface.clone(), left: 0, right: 0, cost: r.cost, details: r.details.clone() })
            .collect();
        let u = load_user_csv(c.kind, &rows)?;
        let mut by: BTreeMap<String, Vec<Meaning>> = BTreeMap::new();
        for r in &rows {
            by.entry(r.surface().to_string()).or_default().push(r.meaning(c.kind));
        }
        let f = |i| u.word_details(i);
        return short(Lex { by, details: &f, system: false }.all(&u.dict, &[], o));
    }
    let d = spec.build()?;
    short(check_lexicon(&spec, &d, &[], o))
}

fn long_case(user: bool) -> BoxedStrategy<LongCase> {
    let len = prop_oneof![2 => 0u32..100, 2 => 10_000u32..40_000, 1 => 65_500u32..65_600, 1 => 100_000u32..600_000];
    (kind(), vec((any::<u8>(), vec(len, 0..=4)), 1..=5), proptest::sample::select(vec!['x', '東', ',', '"']))
        .prop_map(move |(kind, rows, c)| LongCase { kind, rows, c, user })
        .boxed()
}

fn homograph_rows(n: usize, user: bool) -> Result<bool, String> {
    let mut spec = big_spec(&BigCase { kind: Kind::Unidic, n: 1, step: 1, alpha: vec!['x'] });
    let row = |s: &str, i: usize| Row { surface: s.into(), left: 0, right: 0, cost: i as i16, details: vec![format!("r{i}"); 17] };
    let rows: Vec<Row> = (0..n).map(|i| row("あ", i)).chain([row("い", n)]).collect();
    let (got, other) = if user {
        let rows: Vec<URow> = rows
            .iter()
            .map(|r| URow::Detailed { surface: r.surface.clone(), left: 0, right: 0, cost: r.cost, details: r.details.clone() })
            .collect();
        let u = load_user_csv(Kind::Unidic, &rows)?;
        (u.dict.find_surface("あ").len(), u.dict.find_surface("い").len())
    } else {
        spec.rows = rows;
        let d = spec.build()?;
        (d.dict.find_surface("あ").len(), d.dict.find_surface("い").len())
    };
    match (got, other) {
        (g, 1) if g == n => Ok(false),
        (g, 1) if g == n - 32 => Ok(true),
        x => Err(format!("{n} rows of one surface: lookup gives {x:?} entries (surface, another surface)")),
    }
}

/// Some rows once more: the same, or with another cost, id or detail.
fn repeat_rows(kind: Kind, rows: &mut Vec<Row>, seed: u8) {
    let n = rows.len();
    for k in 0..=(seed as usize / 8 % 4) {
        let mut r = rows[(k * 7 + seed as usize) % n].clone();
        if rows.iter().filter(|x| norm(kind, &x.surface) == norm(kind, &r.surface)).count() >= 31 {
            continue;
        }
        match (k + seed as usize / 32) % 4 {
            0 => r.cost = r.cost.wrapping_add(1),
            1 => {
                if let Some(d) = r.details.last_mut() {
                    d.push('+');
                }
            }
            _ => {}
        }
        let at = (seed as usize * 31 + k * 11) % (rows.len() + 1);
        rows.insert(at, r);
    }
}

fn lex_case(sz: DictSize) -> BoxedStrategy<LexCase> {
    lex_case_of(tok_case_sized(Just(ModeSpec::Normal).boxed(), 4, 10, sz))
}

fn lex_case_of(base: BoxedStrategy<TokCase>) -> BoxedStrategy<LexCase> {
    (base, 0u8..4, vec((any::<u16>(), any::<u8>()), 0..=4), any::<u8>(), any::<u8>(), any::<u8>())
        .prop_map(|(mut base, style, broken, naming, shape, stale)| {
            base.user.clear();
            let ragged = base.dict.kind == Kind::CcCedict && shape & 1 == 1;
            for (i, r) in base.dict.rows.iter_mut().enumerate() {
                if ragged {
                    // CC-CEDICT rows may have any number of columns
                    let n = 1 + (i * 5 + shape as usize) % (r.details.len() + 3);
                    r.details.resize(n, "extra".into());
                }
                if shape % 8 == 6 {
                    // spaces are part of a column
                    let k = (i * 3 + shape as usize) % (r.details.len() + 1);
                    if let Some(d) = r.details.get_mut(k) {
                        *d = [format!(" {d}"), format!("{d} "), format!("\u{3000}{d}\u{3000}"), " ".into()][i % 4].clone();
                    }
                }
            }
            if shape % 8 >= 4 {
                repeat_rows(base.dict.kind, &mut base.dict.rows, shape);
            }
            LexCase { base, style, broken, naming, stale: stale % 3 == 0 }
        })
        .boxed()
}

pub fn p06() -> Property {
    const RULE: &str = "some surface is a prefix of another and some surface has two rows";
    Property {
        id: "P06",
        suites: vec![
            suite("dense", RULE, 40_000, 2_000_000, || lex_case(DictSize { rows: 40, user: 0, matrix: 4, alpha: 4 }), p06_check),
            suite("homographs", RULE, 8_000, 400_000, || lex_case(DictSize { rows: 80, user: 0, matrix: 3, alpha: 2 }), p06_check),
            suite("wide", RULE, 4_000, 200_000, || lex_case(DictSize { rows: 400, user: 0, matrix: 4, alpha: 24 }), p06_check),
            suite("nested", RULE, 2_000, 80_000,
                || lex_case_of(nested(tok_case_sized(Just(ModeSpec::Normal).boxed(), 2, 8, DictSize { rows: 12, user: 0, matrix: 4, alpha: 3 }))),
                p06_check),
            suite("long", "the details of a row take more than 65535 bytes", 120, 4_000, || long_case(false), p06_long),
            suite("large", "more than 1000 rows", 24, 600,
                || big_case(500..5000, 65_000..90_000), p06_big),
        ],
        known: vec![
            Known { sig: "homographs-32", what: "32 rows with one surface: the entry count does not fit its 5 bits and lookup finds none of them", probe: || homograph_rows(32, false) },
            Known { sig: "homographs-40", what: "40 rows with one surface: lookup finds only 8 of them", probe: || homograph_rows(40, false) },
        ],
        assumptions: vec!["surfaces are non-empty, without NUL, and have at most 31 rows each"],
    }
}

// ------------------------------------------------------------------------------------ P07

const COMMON: &[&str] = &["DEFAULT", "SPACE", "KANJI", "ALPHA", "A", "B2", "x_y", "KANJINUMERIC", "HIRAGANA", "C"];

/// Names of categories: a few usual ones, then many more.
fn cat(i: usize) -> &'static str {
    static MORE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    COMMON.get(i).copied().unwrap_or_else(|| &MORE.get_or_init(|| (0..MANY).map(|i| format!("N{i}")).collect())[i])
}
const MANY: usize = 420;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum CLine {
    Cat(usize, bool, bool, u32),
    Range(u16, u16, Vec<usize>, u8),
    Noise(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CharCase {
    kind: Kind,
    lines: Vec<CLine>,
    fmt: u8,
    probes: Vec<char>,
}

fn render_char_def(c: &CharCase) -> String {
    let mut s = String::new();
    for (i, l) in c.lines.iter().enumerate() {
        let f = (c.fmt as usize + i) % 5;
        let sep = [" ", "\t", "  ", " \t ", " "][f];
        match l {
            CLine::Cat(n, inv, grp, len) => {
                s += &format!("{}{sep}{}{sep}{}{sep}{len}", cat(*n), *inv as u8, *grp as u8);
            }
            CLine::Range(a, b, cs, up) => {
                let h = |x: u16| match up % 16 {
                    // numbers need not have four digits
                    9 => format!("0x{x:X}"),
                    11 => format!("0x{x:06x}"),
                    k if k % 2 == 0 => format!("0x{x:04X}"),
                    _ => format!("0x{x:04x}"),
                };
                s += &if a == b && up & 2 == 0 { h(*a) } else { format!("{}..{}", h(*a), h(*b)) };
                for k in cs {
                    s += sep;
                    s += cat(*k);
                }
            }
            CLine::Noise(k) => s += ["", "# comment KANJI 0 1", "   ", "#0x3042 ALPHA", "\t# x"][*k as usize % 5],
        }
        s += [" # トレイル", "", "  ", "#x 0 0 0", ""][(f + i) % 5];
        s += if c.fmt & 64 != 0 { "\r\n" } else { "\n" };
    }
    s
}

fn p07_check(c: &CharCase, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let text = render_char_def(c);
    std::fs::write(sc.path().join("char.def"), encode(c.kind, &text)).unwrap();
    let built = c.kind.builder().build_chardef(sc.path(), sc.path()).map_err(|e| format!("valid char.def {text:?} rejected: {e:?}"))?;
    // loaded from the written (uncompressed in this build) component
    let loaded = DictionaryLoader::char_def(sc.path().to_path_buf()).map_err(|e| format!("loading char_def.bin: {e:?}"))?;
    let mut probes: BTreeSet<char> = c.probes.iter().copied().collect();
    for l in &c.lines {
        if let CLine::Range(a, b, ..) = l {
            for x in [*a as u32, *b as u32] {
                for y in [x.wrapping_sub(1), x, x + 1] {
                    probes.extend(char::from_u32(y));
                }
            }
        }
    }
    probes.extend(['\0', '\u{FFFF}', '\u{10000}', '\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{FFFD}', '\u{FEFF}']);
    for defs in [&built, &loaded] {
        for &ch in &probes {
            let mut want: Vec<usize> = vec![];
            for l in &c.lines {
                if let CLine::Range(a, b, cs, _) = l {
                    if (*a as u32..=*b as u32).contains(&(ch as u32)) {
                        for k in cs {
                            if !want.contains(k) {
                                want.push(*k);
                            }
                        }
                    }
                }
            }
            o.label_if(want.len() >= 2, "several-categories");
            o.nontrivial |= want.len() >= 2;
            if want.is_empty() {
                want.push(0);
            }
            let got = defs.lookup_categories(ch);
            let names: Vec<&str> = got.iter().map(|k| defs.category_name(*k)).collect();
            let wn: Vec<&str> = want.iter().map(|k| cat(*k)).collect();
            if names != wn {
                return Err(format!("char.def {text:?}: U+{:04X} has categories {names:?} instead of {wn:?}", ch as u32));
            }
            for (id, k) in got.iter().zip(&want) {
                let d = defs.lookup_definition(*id);
                let w = c.lines.iter().find_map(|l| match l {
                    CLine::Cat(n, i, g, len) if n == k => Some((*i, *g, *len)),
                    _ => None,
                });
                if Some((d.invoke, d.group, d.length)) != w {
                    return Err(format!("char.def {text:?}: category {} is {d:?} instead of {w:?}", cat(*k)));
                }
            }
            o.steps += 1;
        }
        // every defined category is listed by name with its own values
        for l in &c.lines {
            if let CLine::Cat(n, i, g, len) = l {
                let Some(id) = defs.categories().iter().position(|x| x == cat(*n)) else {
                    return Err(format!("char.def {text:?}: category {} is missing", cat(*n)));
                };
                let d = defs.lookup_definition(lindera_core::character_definition::CategoryId(id));
                if (d.invoke, d.group, d.length) != (*i, *g, *len) {
                    return Err(format!("char.def {text:?}: category {} is {d:?}", cat(*n)));
                }
            }
        }
    }
    let first_range = c.lines.iter().position(|l| matches!(l, CLine::Range(..)));
    let last_cat = c.lines.iter().rposition(|l| matches!(l, CLine::Cat(..)));
    o.label_if(first_range < last_cat && first_range.is_some(), "forward-reference");
    Ok(())
}

fn bound() -> BoxedStrategy<u16> {
    prop_oneof![
        4 => (0x3041u16..0x3100),
        2 => (0x20u16..0x80),
        2 => (0x4E00u16..0x4E20),
        2 => any::<u16>(),
        1 => Just(0u16), 1 => Just(0xFFFF), 1 => Just(0xFEFF), 1 => Just(0xFFFE), 1 => Just(0xD800), 1 => Just(0xDFFF),
    ]
    .boxed()
}

const CHAR_RULE: &str = "some character has at least two categories";

fn char_case(ncat: std::ops::RangeInclusive<usize>, nranges: usize) -> BoxedStrategy<CharCase> {
                let width = prop_oneof![3 => 0u16..4, 2 => 0u16..200, 1 => any::<u16>()];
                (
                    kind(),
                    vec((any::<bool>(), any::<bool>(), prop_oneof![3 => 0u32..4, 1 => any::<u32>()]), *ncat.end()),
                    ncat,
                    vec((bound(), width, prop_oneof![8 => vec(any::<u16>(), 1..=4), 1 => vec(any::<u16>(), 5..=24)], 0u8..16), 0..=nranges),
                    vec(0u8..5, 0..=3),
                    proptest::collection::vec(any::<u16>(), 40),
                    any::<u8>(),
                    vec(any_char(), 0..=12),
                    0u8..3,
                )
                    .prop_map(|(kind, defs, n, ranges, noise, keys, fmt, probes, order)| {
                        let mut lines: Vec<CLine> = vec![];
                        for (i, d) in defs.iter().take(n).enumerate() {
                            lines.push(CLine::Cat(i, d.0, d.1, d.2));
                        }
                        for (a, w, cs, up) in ranges {
                            lines.push(CLine::Range(a, a.saturating_add(w), cs.iter().map(|c| (*c as usize * n) >> 16).collect(), up));
                        }
                        for k in noise {
                            lines.push(CLine::Noise(k));
                        }
                        if order > 0 {
                            // any order; only the relative order of ranges matters
                            let mut idx: Vec<usize> = (0..lines.len()).collect();
                            idx.sort_by_key(|i| keys[i % keys.len()]);
                            lines = idx.into_iter().map(|i| lines[i].clone()).collect();
                        }
                        CharCase { kind, lines, fmt, probes }
                    })
                    .boxed()
}

pub fn p07() -> Property {
    Property {
        id: "P07",
        suites: vec![
            suite("char_def", CHAR_RULE, 100_000, 4_000_000, || char_case(1..=COMMON.len(), 10), p07_check),
            suite("many", CHAR_RULE, 800, 40_000, || char_case(20..=MANY, 500), p07_check),
        ],
        known: vec![],
        assumptions: vec![
            "every category mentioned by a range has exactly one definition line, DEFAULT is defined",
            "invoke and group are written 0 or 1; code points are hexadecimal numbers up to FFFF (the format has no more)",
        ],
    }
}

// ------------------------------------------------------------------------------------ P08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MatCase {
    kind: Kind,
    fwd: u16,
    bwd: u16,
    /// (forward, backward, cost); of several with one pair the last counts
    entries: Vec<(u16, u16, i16)>,
    fmt: u8,
    /// (line, how) it is damaged
    bad: Option<(u16, u8)>,
}

fn p08_check(c: &MatCase, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let sep = [" ", "\t", "  "][c.fmt as usize % 3];
    let eol = if c.fmt & 8 != 0 { "\r\n" } else { "\n" };
    let mut s = format!("{}{sep}{}{eol}", c.fwd, c.bwd);
    for (i, (f, b, k)) in c.entries.iter().enumerate() {
        if c.fmt & 192 == 64 && i % 5 == (c.fmt & 3) as usize {
            s += eol;
        }
        if let Some((l, how)) = c.bad {
            if (l as usize * c.entries.len()) >> 16 == i {
                let k = k.to_string();
                let (f, b) = (f.to_string(), b.to_string());
                let v: Vec<&str> = match how % 16 {
                    0 => vec![&f, &b, "32768"],
                    1 => vec![&f, &b, "-32769"],
                    2 => vec![&f, &b, "65535"],
                    3 => vec![&f, &b, "-65536"],
                    4 => vec![&f, &b, "100000"],
                    5 => vec![&f, &b, "2147483647"],
                    6 => vec!["-1", &b, &k],
                    7 => vec![&f, "-1", &k],
                    8 => vec!["65536", &b, &k],
                    9 => vec![&f, "65536", &k],
                    10 => vec![&f, &b],
                    11 => vec![&f],
                    12 => vec![&f, &b, "x"],
                    13 => vec!["１", &b, &k],
                    14 => vec![&f, &b, "1.0"],
                    _ => vec![&f, "4294967296", &k],
                };
                s += &(v.join(sep) + eol);
                continue;
            }
        }
        s += &format!("{f}{sep}{b}{sep}{k}{eol}");
    }
    std::fs::write(sc.path().join("matrix.def"), encode(c.kind, &s)).unwrap();
    if c.bad.is_some() && !c.entries.is_empty() {
        o.label("damaged");
        o.nontrivial = true;
        return match c.kind.builder().build_cost_matrix(sc.path(), sc.path()) {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("matrix.def {s:?} was accepted")),
        };
    }
    c.kind.builder().build_cost_matrix(sc.path(), sc.path()).map_err(|e| format!("valid matrix.def rejected: {e:?}"))?;
    let m = DictionaryLoader::connection(sc.path().to_path_buf()).map_err(|e| format!("loading matrix.mtx: {e:?}"))?;
    let data: &'static [u8] = Box::leak(std::fs::read(sc.path().join("matrix.mtx")).unwrap().into_boxed_slice());
    let st = lindera_core::connection::ConnectionCostMatrix::load_static(data);
    let want: BTreeMap<(u16, u16), i16> = c.entries.iter().map(|(f, b, k)| ((*f, *b), *k)).collect();
    let cell = |f: u16, b: u16| -> CheckResult {
        let w = *want.get(&(f, b)).unwrap_or(&i16::MAX) as i32;
        for (n, m) in [("load", &m), ("load_static", &st)] {
            let g = m.cost(f as u32, b as u32);
            if g != w {
                return Err(format!("{}x{} matrix: cost({f}, {b}) is {g} ({n}) instead of {w}", c.fwd, c.bwd));
            }
        }
        Ok(())
    };
    let r = (|| {
        if (c.fwd as u32) * (c.bwd as u32) <= 4096 {
            for f in 0..c.fwd {
                for b in 0..c.bwd {
                    cell(f, b)?;
                    o.steps += 1;
                }
            }
        }
        for (f, b, _) in &c.entries {
            for (f2, b2) in [(*f, *b), (f.wrapping_add(1), *b), (*f, b.wrapping_add(1)), (f.wrapping_sub(1), *b), (*f, b.wrapping_sub(1))] {
                if f2 < c.fwd && b2 < c.bwd {
                    cell(f2, b2)?;
                    o.steps += 1;
                }
            }
        }
        cell(c.fwd - 1, c.bwd - 1)?;
        cell(0, c.bwd - 1)?;
        cell(c.fwd - 1, 0)
    })();
    drop(m);
    drop(st);
    // SAFETY: the only borrows of the leaked buffer are gone
    unsafe { drop(Box::from_raw(data as *const [u8] as *mut [u8])) };
    o.nontrivial = c.fwd != c.bwd && c.fwd > 1 && c.bwd > 1 && c.entries.len() >= 3;
    o.label_if(c.bwd > 32767, "backward-over-32767");
    o.label_if(c.fwd > 32767, "forward-over-32767");
    o.label_if((want.len() as u32) < c.fwd as u32 * c.bwd as u32, "missing-pairs");
    o.label_if(want.len() < c.entries.len(), "repeated-pairs");
    o.label_if(c.entries.len() as u32 > c.fwd as u32 * c.bwd as u32, "more-lines-than-pairs");
    r
}

pub fn p08() -> Property {
    fn entries(n: usize) -> BoxedStrategy<(Vec<(u16, u16, i16, u16)>, u8)> {
        (vec((any::<u16>(), any::<u16>(), prop_oneof![3 => any::<i16>(), 1 => cost()], any::<u16>()), 0..=n), any::<u8>()).boxed()
    }
    fn mk(kind: Kind, fwd: u16, bwd: u16, e: Vec<(u16, u16, i16, u16)>, fmt: u8) -> MatCase {
        let mut seen = HashSet::new();
        let entries = e
            .into_iter()
            .map(|(f, b, c, _)| (((f as u32 * fwd as u32) >> 16) as u16, ((b as u32 * bwd as u32) >> 16) as u16, c))
            .filter(|(f, b, _)| seen.insert((*f, *b)) || fmt & 48 == 16)
            .collect();
        MatCase { kind, fwd, bwd, entries, fmt, bad: None }
    }
    const RULE: &str = "the matrix is not square, larger than 1 both ways, with at least three entries";
    Property {
        id: "P08",
        suites: vec![
            suite("small", RULE, 100_000, 3_000_000,
                || (kind(), 1u16..12, 1u16..12, entries(60)).prop_map(|(k, f, b, (e, fmt))| mk(k, f, b, e, fmt)).boxed(), p08_check),
            suite("damaged", "every case with an entry", 8_000, 200_000,
                || (kind(), 1u16..6, 1u16..6, entries(8), any::<u16>(), any::<u8>())
                    .prop_map(|(k, f, b, (e, fmt), l, how)| MatCase { bad: Some((l, how)), ..mk(k, f, b, e, fmt) }).boxed(), p08_check),
            suite("large", RULE, 800, 20_000,
                || {
                    let big = prop_oneof![2 => 200u16..3000, 2 => 30_000u16..=65_535, 1 => 32_760u16..32_775, 1 => Just(65_535u16)];
                    (kind(), big, 1u16..=3, any::<bool>(), entries(40))
                        .prop_map(|(k, g, s, swap, (e, fmt))| if swap { mk(k, g, s, e, fmt) } else { mk(k, s, g, e, fmt) })
                        .boxed()
                }, p08_check),
        ],
        known: vec![],
        assumptions: vec!["ids of valid files are below the header's sizes, costs within 16 bits"],
    }
}

// ------------------------------------------------------------------------------------ P09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UnkCase {
    kind: Kind,
    /// names (see cat) that char.def defines, in this order
    defined: Vec<usize>,
    /// (name, left, right, cost)
    lines: Vec<(usize, u16, u16, i16)>,
    /// (line, column, how)
    damage: Option<(u16, u8, u8)>,
    extra: u8,
}

fn p09_check(c: &UnkCase, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let mut cd = String::new();
    for (i, n) in c.defined.iter().enumerate() {
        cd += &format!("{} {} {} {}\n", cat(*n), i % 2, (i / 2) % 2, i % 4);
    }
    std::fs::write(sc.path().join("char.def"), cd).unwrap();
    let nf = c.kind.unk_fields();
    let mut lines: Vec<Vec<String>> = c
        .lines
        .iter()
        .enumerate()
        .map(|(i, (n, l, r, k))| {
            let mut v = vec![cat(*n).to_string(), l.to_string(), r.to_string(), k.to_string()];
            for j in 4..nf {
                v.push(["*", "名詞", "", "x y"][(i + j + c.extra as usize) % 4].to_string());
            }
            v
        })
        .collect();
    let mut damaged = None;
    if let (Some((l, col, how)), false) = (c.damage, lines.is_empty()) {
        let i = (l as usize * lines.len()) >> 16;
        let v = &mut lines[i];
        damaged = Some(match how % 5 {
            0 => {
                v.remove(col as usize % nf);
                "column removed"
            }
            1 => {
                v.insert(1 + col as usize % nf, "7".into());
                "column added"
            }
            2 => {
                v[1 + col as usize % 3] = ["x", "", "1.5", "０", "--1", "1 2", "99999999999", "0x1"][(how / 4) as usize % 8].into();
                "not a number"
            }
            3 => {
                v[1 + col as usize % 2] = "-1".into();
                "negative id"
            }
            _ => {
                let at = 1 + col as usize % 3;
                v[at] = if at < 3 {
                    ["65536", "70000", "131071", "4294967295"][(how / 5) as usize % 4]
                } else {
                    ["32768", "-32769", "40000", "65535", "-65536"][(how / 5) as usize % 5]
                }
                .into();
                "beyond 16 bits"
            }
        });
    }
    let text: String = lines.iter().map(|v| v.join(",") + "\n").collect();
    std::fs::write(sc.path().join("unk.def"), encode(c.kind, &text)).unwrap();
    let b = c.kind.builder();
    let defs = b.build_chardef(sc.path(), sc.path()).map_err(|e| format!("char.def rejected: {e:?}"))?;
    let r = b.build_unk(sc.path(), &defs, sc.path());
    o.steps = c.lines.len() as u64;
    if let Some(how) = damaged {
        o.label("damaged");
        o.nontrivial = true;
        return match r {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("unk.def {text:?} ({how}) was accepted")),
        };
    }
    r.map_err(|e| format!("valid unk.def {text:?} rejected: {e:?}"))?;
    let u = DictionaryLoader::unknown_dict(sc.path().to_path_buf()).map_err(|e| format!("loading unk.bin: {e:?}"))?;
    for (id, name) in defs.categories().iter().enumerate() {
        let got: Vec<(u16, u16, i16)> = u
            .lookup_word_ids(lindera_core::character_definition::CategoryId(id))
            .iter()
            .map(|w| {
                let e = u.word_entry(*w);
                if e.word_id.is_unknown() { Ok((e.left_id, e.right_id, e.word_cost)) } else { Err(format!("{e:?} is not an unknown word")) }
            })
            .collect::<Result<_, _>>()?;
        let want: Vec<(u16, u16, i16)> =
            c.lines.iter().filter(|l| cat(l.0) == name).map(|l| (l.1, l.2, l.3)).collect();
        o.nontrivial |= want.len() >= 2;
        if got != want {
            return Err(format!("unk.def {text:?}: category {name} has templates {got:?} instead of {want:?}"));
        }
    }
    if defs.categories().len() != c.defined.len() {
        return Err(format!("categories {:?}", defs.categories()));
    }
    o.label_if(c.lines.iter().any(|l| !c.defined.contains(&l.0)), "line-of-undefined-category");
    o.label_if(c.lines.iter().enumerate().any(|(i, l)| c.lines[..i].contains(l)), "repeated-line");
    Ok(())
}

fn unk_case(ncat: std::ops::RangeInclusive<usize>, nlines: usize) -> BoxedStrategy<UnkCase> {
    let max = *ncat.end();
    (kind(), vec(any::<u16>(), max), ncat,
        vec((any::<u16>(), any::<u16>(), any::<u16>(), prop_oneof![any::<i16>(), cost()]), 0..=nlines),
        proptest::option::weighted(0.3, (any::<u16>(), any::<u8>(), any::<u8>())), any::<u8>())
        .prop_map(move |(kind, keys, n, lines, damage, extra)| {
            let mut defined: Vec<usize> = (0..max).collect();
            defined.sort_by_key(|i| keys[*i]);
            defined.truncate(n);
            if !defined.contains(&0) {
                defined.push(0);
            }
            let pool = (n + 2).min(max);
            let mut lines: Vec<_> = lines.into_iter().map(|(c, l, r, k)| ((c as usize * pool) >> 16, l, r, k)).collect();
            if extra & 12 == 4 && !lines.is_empty() {
                // the same line once more, next to it or further down
                let i = extra as usize / 16 % lines.len();
                let at = if extra & 2 == 0 { i } else { lines.len() };
                lines.insert(at, lines[i]);
            }
            UnkCase { kind, defined, lines, damage, extra }
        })
        .boxed()
}

pub fn p09() -> Property {
    const RULE: &str = "a category with two templates, or a damaged line";
    Property {
        id: "P09",
        suites: vec![
            suite("unk_def", RULE, 120_000, 5_000_000, || unk_case(1..=COMMON.len(), 14), p09_check),
            suite("many lines", RULE, 1_600, 60_000, || unk_case(1..=3, 900), p09_check),
            suite("many categories", RULE, 800, 40_000, || unk_case(20..=MANY, 900), p09_check),
        ],
        known: vec![],
        assumptions: vec!["ids and costs of valid lines lie within 16 bits"],
    }
}

// ------------------------------------------------------------------------------------ P10, P11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UserCase {
    base: TokCase,
    /// extra detail columns (IPADIC kinds: per row; other kinds: the whole file)
    wide: u8,
    eol: u8,
}

fn user_case() -> BoxedStrategy<UserCase> {
    user_case_sized(DictSize { rows: 16, user: 24, matrix: 4, alpha: 4 })
}
fn user_case_sized(sz: DictSize) -> BoxedStrategy<UserCase> {
    (tok_case_sized(mode(), 6, 14, sz), 0u8..4, any::<u8>())
        .prop_map(|(mut base, wide, eol)| {
            let k = base.dict.kind;
            for (i, r) in base.user.iter_mut().enumerate() {
                if let URow::Detailed { details, .. } = r {
                    let extra = if k.normalizes() { (wide as usize + i) % 3 } else { wide as usize };
                    for j in 0..extra {
                        details.push(["more", "", "a,b"][(i + j) % 3].to_string());
                    }
                }
            }
            // some rows once more
            if eol >= 128 && !base.user.is_empty() {
                for i in 0..=(eol as usize / 4 % 3) {
                    let mut r = base.user[(i * 5 + eol as usize) % base.user.len()].clone();
                    if base.user.iter().filter(|x| x.surface() == r.surface()).count() < 31 {
                        if let (URow::Detailed { details, .. }, true) = (&mut r, eol & 16 != 0) {
                            if let Some(d) = details.iter_mut().skip(1).last() {
                                d.push('+');
                            }
                        }
                        base.user.push(r);
                    }
                }
            }
            UserCase { base, wide, eol }
        })
        .boxed()
}

fn user_text(c: &UserCase) -> String {
    let s = user_csv(&c.base.user);
    // last line without newline now and then
    if c.eol % 4 == 1 {
        s.trim_end_matches('\n').to_string()
    } else {
        s
    }
}

fn check_user_lexicon(kind: Kind, rows: &[URow], u: &UserDictionary, texts: &[String], o: &mut Obs) -> CheckResult {
    let mut by: BTreeMap<String, Vec<Meaning>> = BTreeMap::new();
    for r in rows {
        by.entry(r.surface().to_string()).or_default().push(r.meaning(kind));
    }
    let f = |i| u.word_details(i);
    Lex { by, details: &f, system: false }.all(&u.dict, texts, o)
}

fn p10_check(c: &UserCase, o: &mut Obs) -> CheckResult {
    let k = c.base.dict.kind;
    o.label_if(c.base.user.is_empty(), "no-rows");
    let sc = Scratch::new();
    let p = sc.path().join("u.csv");
    std::fs::write(&p, user_text(c)).unwrap();
    let u = k.builder().build_user_dict(&p).map_err(|e| format!("valid user dictionary {:?} rejected: {e:?}", user_text(c)))?;
    check_user_lexicon(k, &c.base.user, &u, &c.base.texts, o)?;
    o.label(k.name());
    o.label_if(c.base.user.iter().any(|r| matches!(r, URow::Simple { .. })), "simple-row");
    o.label_if(c.base.user.iter().any(|r| matches!(r, URow::Detailed { .. })), "detailed-row");
    // in tokenization: user words compete at their own cost
    let d = c.base.dict.build()?;
    let t = Tokenizer::new(d, Some(u), c.base.mode.real());
    let m = Model::new(&c.base.dict, &c.base.user);
    for text in &c.base.texts {
        let toks = tokenize(&t, text)?;
        check_tiling(text, &toks)?;
        let (mut base, mut i) = (0, 0);
        for s in sentences(text) {
            let edges = m.lattice(s, &c.base.mode);
            let best = m.best(s, &edges).ok_or("model: no path")?;
            let from = i;
            while i < toks.len() && toks[i].start < base + s.len() {
                i += 1;
            }
            let got = m.path_cost(s, base, &toks[from..i], &edges)?;
            if got != best {
                return Err(format!("sentence {s:?}: cost {got} with user words, optimum {best}"));
            }
            base += s.len();
        }
        o.nontrivial |= toks.iter().any(|t| !t.word_id.1);
    }
    Ok(())
}

pub fn p10() -> Property {
    Property {
        id: "P10",
        suites: vec![
            suite("user csv", "some token of some text is a user word", 50_000, 2_000_000, user_case, p10_check),
            suite("homographs", "some token of some text is a user word", 6_000, 200_000,
                || user_case_sized(DictSize { rows: 6, user: 60, matrix: 3, alpha: 2 }), p10_check),
            suite("long", "the details of a row take more than 65535 bytes", 60, 2_000, || long_case(true), p06_long),
            suite("large", "some token of some text is a user word", 24, 600, || big_case(500..12_000, 65_000..80_000), p11_large),
        ],
        known: vec![
            Known { sig: "user-homographs-32", what: "32 user rows with one surface: lookup finds none of them", probe: || homograph_rows(32, true) },
        ],
        assumptions: vec![
            "at most 31 rows share one surface",
            "UniDic, ko-dic and CC-CEDICT user files have rows of one width (their reader rejects others)",
        ],
    }
}

fn p11_check(c: &UserCase, o: &mut Obs) -> CheckResult {
    let k = c.base.dict.kind;
    o.label_if(c.base.user.is_empty(), "no-rows");
    let sc = Scratch::new();
    let p = sc.path().join("u.csv");
    std::fs::write(&p, user_text(c)).unwrap();
    let bin = sc.path().join("deep").join("er").join("u.bin");
    if c.eol & 8 != 0 {
        std::fs::create_dir_all(bin.parent().unwrap()).unwrap();
        std::fs::write(&bin, vec![0xAB; 200_000]).unwrap();
        o.label("over-an-older-file");
    }
    k.builder().build_user_dictionary(&p, &bin).map_err(|e| format!("build_user_dictionary: {e:?}"))?;
    let load = |path: &Path, kind: Option<Kind>| {
        DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: path.to_path_buf(), kind: kind.map(|k| k.lindera()) })
    };
    let a = load(&p, Some(k)).map_err(|e| format!("csv: {e:?}"))?;
    let mut vs = vec![];
    for kind in [None, Some(k), Some(KINDS[c.eol as usize % 5])] {
        vs.push(load(&bin, kind).map_err(|e| format!("bin with kind {kind:?}: {e:?}"))?);
    }
    vs.push(DictionaryLoader::load_user_dictionary_from_bin(bin.clone()).map_err(|e| format!("bin: {e:?}"))?);
    let d = c.base.dict.build()?;
    let ta = Tokenizer::new(d.clone(), Some(a), c.base.mode.real());
    for v in vs {
        check_user_lexicon(k, &c.base.user, &v, &[], o)?;
        let tb = Tokenizer::new(d.clone(), Some(v), c.base.mode.real());
        for text in &c.base.texts {
            let (x, y) = (tokenize(&ta, text)?, tokenize(&tb, text)?);
            if x != y {
                return Err(format!("text {text:?}: csv gives {x:?}, compiled gives {y:?}"));
            }
            o.steps += 1;
            o.nontrivial |= x.iter().any(|t| !t.word_id.1);
        }
    }
    Ok(())
}

/// A user dictionary of many rows, whose compiled form is up to several MiB long.
fn p11_large(c: &BigCase, o: &mut Obs) -> CheckResult {
    let spec = big_spec(c);
    if sys_lexicon(&spec).values().map(|v| v.len()).max().unwrap_or(0) > 31 {
        return Ok(());
    }
    let k = c.kind;
    let simple = c.step % 4 == 1;
    let long = "よ".repeat((c.step / 4 % 40) as usize);
    let rows: Vec<URow> = spec
        .rows
        .iter()
        .enumerate()
        .map(|(i, r)| {
            if simple {
                URow::Simple { surface: r.surface.clone(), pos: format!("u{i}"), reading: format!("{long}{i}") }
            } else {
                let mut d = vec![format!("u{i}"), format!("{long}{i}")];
                d.resize(k.detail_cols(), "*".to_string());
                URow::Detailed { surface: r.surface.clone(), left: r.left, right: r.right, cost: r.cost, details: d }
            }
        })
        .collect();
    let sc = Scratch::new();
    let p = sc.path().join("u.csv");
    std::fs::write(&p, user_csv(&rows)).unwrap();
    let bin = sc.path().join("u.bin");
    k.builder().build_user_dictionary(&p, &bin).map_err(|e| format!("build_user_dictionary: {e:?}"))?;
    let size = std::fs::metadata(&bin).map(|m| m.len()).unwrap_or(0);
    let load = |path: &Path, kind: Option<Kind>| {
        DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: path.to_path_buf(), kind: kind.map(|k| k.lindera()) })
    };
    let a = load(&p, Some(k)).map_err(|e| format!("csv of {} rows: {e:?}", rows.len()))?;
    check_user_lexicon(k, &rows, &a, &[], o)?;
    let b = load(&bin, None).map_err(|e| format!("binary of {size} bytes: {e:?}"))?;
    check_user_lexicon(k, &rows, &b, &[], o)?;
    let mut d = spec;
    d.rows.truncate(3);
    let d = d.build()?;
    let (ta, tb) = (Tokenizer::new(d.clone(), Some(a), lindera_core::mode::Mode::Normal), Tokenizer::new(d, Some(b), lindera_core::mode::Mode::Normal));
    for i in (0..rows.len()).step_by(rows.len() / 50 + 1) {
        let text: String = rows[i..].iter().take(4).map(|r| r.surface()).collect();
        let (x, y) = (tokenize(&ta, &text)?, tokenize(&tb, &text)?);
        if x != y {
            return Err(format!("text {text:?}: csv gives {x:?}, compiled gives {y:?}"));
        }
        o.steps += 1;
        o.nontrivial |= x.iter().any(|t| !t.word_id.1);
    }
    o.label_if(size > 65_536, "over-64KiB");
    o.label_if(size > 1 << 20, "over-1MiB");
    o.label_if(rows.len() > 65_536, "over-65536-rows");
    Ok(())
}

pub(super) fn big_case(small: std::ops::Range<u32>, large: std::ops::Range<u32>) -> BoxedStrategy<BigCase> {
    (kind(), prop_oneof![3 => small, 1 => large], 1u32..900_000, vec(pool_char(), 2..=12))
        .prop_map(|(kind, n, step, alpha)| {
            let mut a: Vec<char> = sanitize(&norm(kind, &alpha.iter().collect::<String>())).chars().filter(|c| *c != '\u{FEFF}').collect();
            a.push('ア');
            a.push('b');
            a.sort();
            a.dedup();
            BigCase { kind, n, step: step * 2 + 1, alpha: a }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExtCase {
    kind: Option<Kind>,
    name: String,
    content: u8,
}

fn p11_dispatch(c: &ExtCase, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let rows = vec![URow::Simple { surface: "東京".into(), pos: "u0".into(), reading: "トウキョウ".into() }];
    let k = c.kind.unwrap_or(Kind::Ipadic);
    let csv = sc.path().join("orig.csv");
    std::fs::write(&csv, user_csv(&rows)).unwrap();
    let bin = sc.path().join("orig.bin");
    k.builder().build_user_dictionary(&csv, &bin).map_err(|e| format!("{e:?}"))?;
    let p = sc.path().join(&c.name);
    if c.content > 0 {
        std::fs::copy(if c.content == 1 { &csv } else { &bin }, &p).unwrap();
    }
    let r = DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: p, kind: c.kind.map(|k| k.lindera()) });
    let ext = c.name.rfind('.').filter(|i| *i > 0).map(|i| &c.name[i + 1..]);
    let what = format!("file {:?} holding {} with kind {:?}", c.name, ["nothing", "CSV", "a compiled dictionary"][c.content as usize], c.kind);
    o.nontrivial = true;
    o.steps = 1;
    match (ext, c.kind, c.content) {
        (_, _, 0) => {}
        (Some("csv"), Some(k), 1) => {
            let u = r.map_err(|e| format!("{what}: rejected: {e:?}"))?;
            o.label("csv-accepted");
            return check_user_lexicon(k, &rows, &u, &[], o);
        }
        (Some("bin"), _, 2) => {
            let u = r.map_err(|e| format!("{what}: rejected: {e:?}"))?;
            o.label("bin-accepted");
            return check_user_lexicon(k, &rows, &u, &[], o);
        }
        // a compiled dictionary read as CSV: only that it does not crash
        (Some("csv"), Some(_), _) => return Ok(()),
        _ => {}
    }
    o.label("rejected");
    match r {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{what}: accepted")),
    }
}

pub fn p11() -> Property {
    Property {
        id: "P11",
        suites: vec![
            suite("csv versus bin", "some token of some text is a user word", 40_000, 1_500_000, user_case, p11_check),
            suite("large", "some token of some text is a user word", 48, 1_000, || big_case(500..12_000, 65_000..80_000), p11_large),
            suite("dispatch", "every case", 4_000, 50_000,
                || {
                    let names = vec!["u.csv", "u.bin", "u.CSV", "u.Bin", "u.txt", "u", "csv", "bin", ".csv", ".bin", "u.csv.bin", "u.bin.csv",
                        "u.", "u.csv.", "u.csvx", "u.xbin", "ゆ.csv", "u.tsv", "u.bincode"];
                    (proptest::option::of(kind()), proptest::sample::select(names), 0u8..3)
                        .prop_map(|(kind, name, content)| ExtCase { kind, name: name.to_string(), content })
                        .boxed()
                }, p11_dispatch),
        ],
        known: vec![],
        assumptions: vec!["at most 31 rows share one surface"],
    }
}
