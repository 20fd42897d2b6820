//! P27: the builders of the single parts and their options.
use super::dict::{read_dir, Lex, Meaning};
use crate::dicts::*;
use crate::gen::*;
use crate::runner::*;
use lindera_core::character_definition::CategoryId;
use lindera_core::dictionary::Dictionary;
use lindera_dictionary::DictionaryLoader;
use lindera_dictionary_builder::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

// ------------------------------------------------------------------------------------ encodings

/// Byte order marks go with the label UTF-8 only, which then stands for what the mark says.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Mark {
    None,
    Utf8,
    Utf16Le,
    Utf16Be,
}

const LABELS: &[&str] = &[
    "UTF-8", "utf8", " Utf-8 ", "EUC-JP", "x-euc-jp", "Shift_JIS", "sjis", "ms932", "windows-31j", "ISO-2022-JP", "csISO2022JP",
    "EUC-KR", "ks_c_5601-1987", "gb18030", "GBK", "gb2312", "Big5", "big5-hkscs", "windows-1252", "latin1", "us-ascii", "KOI8-R",
    "utf-16le", "UTF-16", "utf-16be", "windows-1251", "macintosh",
];

fn encoding_of(label: &str, mark: Mark) -> &'static encoding_rs::Encoding {
    match mark {
        Mark::None | Mark::Utf8 => encoding_rs::Encoding::for_label_no_replacement(label.as_bytes()).unwrap(),
        Mark::Utf16Le => encoding_rs::UTF_16LE,
        Mark::Utf16Be => encoding_rs::UTF_16BE,
    }
}

fn write_in(label: &str, mark: Mark, s: &str) -> Vec<u8> {
    let e = encoding_of(label, mark);
    let mut v: Vec<u8> = match mark {
        Mark::None => vec![],
        Mark::Utf8 => vec![0xEF, 0xBB, 0xBF],
        Mark::Utf16Le => vec![0xFF, 0xFE],
        Mark::Utf16Be => vec![0xFE, 0xFF],
    };
    if e == encoding_rs::UTF_16LE {
        v.extend(s.encode_utf16().flat_map(|u| u.to_le_bytes()));
    } else if e == encoding_rs::UTF_16BE {
        v.extend(s.encode_utf16().flat_map(|u| u.to_be_bytes()));
    } else {
        v.extend_from_slice(&e.encode(s).0);
    }
    v
}

fn carried(label: &str, mark: Mark, c: char) -> bool {
    if encoding_of(label, mark).name().starts_with("UTF-") {
        return true;
    }
    let s = c.to_string();
    let (b, _, bad) = encoding_of(label, mark).encode(&s);
    let (d, bad2) = encoding_of(label, mark).decode_without_bom_handling(&b);
    !bad && !bad2 && d == s
}

fn fit(label: &str, mark: Mark, s: &str) -> String {
    s.chars().map(|c| if carried(label, mark, c) { c } else { char::from(b'a' + (c as u32 % 20) as u8) }).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EncCase {
    dict: DictSpec,
    label: String,
    mark: Mark,
    normalize: bool,
    /// the rows are given this many times over, with a number behind the surface
    times: u16,
    eol: bool,
}

impl EncCase {
    /// The dictionary with what the encoding carries.
    fn fitted(&self) -> DictSpec {
        let mut d = self.dict.clone();
        let f = |s: &str| fit(&self.label, self.mark, s);
        let mut seen: BTreeMap<String, u32> = BTreeMap::new();
        let mut rows = vec![];
        for k in 0..self.times.max(1) {
            for r in &d.rows {
                let mut r = r.clone();
                r.surface = f(&r.surface);
                if k > 0 {
                    r.surface += &k.to_string();
                }
                r.details = r.details.iter().map(|x| f(x)).collect();
                let n = seen.entry(norm(Kind::Neologd, &r.surface)).or_insert(0);
                *n += 1;
                if *n <= 31 {
                    rows.push(r);
                }
            }
        }
        d.rows = rows;
        d
    }
}

fn lexicon_of(rows: &[Row], normalize: bool) -> BTreeMap<String, Vec<Meaning>> {
    let n = |s: &str| if normalize { norm(Kind::Neologd, s) } else { s.to_string() };
    let mut by: BTreeMap<String, Vec<Meaning>> = BTreeMap::new();
    for r in rows {
        let mut d: Vec<String> = r.details.iter().map(|d| n(d)).collect();
        if d.is_empty() {
            d.push(String::new());
        }
        by.entry(n(&r.surface)).or_default().push((r.left, r.right, r.cost, d));
    }
    by
}

fn build_all(label: &str, normalize: bool, unk: usize, src: &Path, out: &Path) -> CheckResult {
    let e = |what: &str, e: lindera_core::error::LinderaError| format!("{what} in {label:?}: {e:?}");
    std::fs::create_dir_all(out).unwrap();
    let cd = CharDefBuilderOptions::default().encoding(label.to_string()).builder().unwrap().build(src, out).map_err(|x| e("char.def", x))?;
    UnkBuilderOptions::default().encoding(label.to_string()).unk_fields_num(unk).builder().unwrap().build(src, &cd, out).map_err(|x| e("unk.def", x))?;
    DictBuilderOptions::default()
        .encoding(label.to_string())
        .normalize_details(normalize)
        .builder()
        .unwrap()
        .build(src, out)
        .map_err(|x| e("lexicon", x))?;
    CostMatrixBuilderOptions::default().encoding(label.to_string()).builder().unwrap().build(src, out).map_err(|x| e("matrix.def", x))
}

fn check_encoding(c: &EncCase, o: &mut Obs) -> CheckResult {
    let spec = c.fitted();
    let sc = Scratch::new();
    let (a, b) = (sc.path().join("a"), sc.path().join("b"));
    for d in [&a, &b] {
        std::fs::create_dir_all(d).unwrap();
    }
    // a line end inside a quoted field is part of the field
    let eol = c.eol && !spec.rows.iter().any(|r| r.surface.contains('\n') || r.details.iter().any(|d| d.contains('\n')));
    for (n, t) in spec.source_files() {
        let t = if eol { t.replace('\n', "\r\n") } else { t };
        std::fs::write(a.join(&n), write_in(&c.label, c.mark, &t)).unwrap();
        std::fs::write(b.join(&n), &t).unwrap();
    }
    let (oa, ob) = (sc.path().join("oa"), sc.path().join("ob"));
    build_all(&c.label, c.normalize, spec.kind.unk_fields(), &a, &oa).map_err(|e| format!("sources with mark {:?}: {e}", c.mark))?;
    build_all("UTF-8", c.normalize, spec.kind.unk_fields(), &b, &ob)?;
    let (fa, fb) = (read_dir(&oa), read_dir(&ob));
    o.label(encoding_of(&c.label, c.mark).name());
    o.nontrivial = spec.rows.iter().any(|r| !r.surface.is_ascii() || r.details.iter().any(|d| !d.is_ascii()));
    o.label_if(c.mark != Mark::None, "byte order mark");
    o.label_if(c.times > 50, "many rows");
    if fa.keys().ne(fb.keys()) {
        return Err(format!("sources in {:?}: the build writes {:?}, from UTF-8 it writes {:?}", c.label, fa.keys(), fb.keys()));
    }
    for (n, x) in &fa {
        if *x != fb[n] {
            return Err(format!("sources in {:?} ({:?}): {n} is not what UTF-8 sources give", c.label, c.mark));
        }
    }
    if c.times <= 50 || c.eol {
        let d: Dictionary = DictionaryLoader::load_dictionary(oa).map_err(|e| format!("loading: {e:?}"))?;
        let f = |i| d.word_details(i);
        let by = lexicon_of(&spec.rows, c.normalize);
        Lex { by, details: &f, system: true }.all(&d.dict, &[], o)?;
    }
    Ok(())
}

fn enc_case(times: BoxedStrategy<u16>) -> BoxedStrategy<EncCase> {
    let label = prop_oneof![
        3 => proptest::sample::select(LABELS).prop_map(|l| (l, Mark::None)),
        1 => proptest::sample::select(vec![("UTF-8", Mark::Utf8), ("utf-8", Mark::Utf16Le), ("UTF-8", Mark::Utf16Be), ("utf8", Mark::Utf8)]),
    ];
    (dict_case(DictSize { rows: 12, user: 0, matrix: 3, alpha: 8 }), label, any::<bool>(), times, any::<bool>())
        .prop_map(|((dict, _, _), (label, mark), normalize, times, eol)| EncCase { dict, label: label.into(), mark, normalize, times, eol })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LabelCase {
    label: String,
}

fn check_label(c: &LabelCase, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let p = sc.path();
    for (n, t) in [("char.def", "DEFAULT 0 1 0\n"), ("unk.def", "DEFAULT,0,0,0,*\n"), ("matrix.def", "1 1\n0 0 0\n"), ("lex.csv", "a,0,0,0,x\n")] {
        std::fs::write(p.join(n), t).unwrap();
    }
    let known = encoding_rs::Encoding::for_label_no_replacement(c.label.as_bytes());
    let ascii = known.map_or(false, |e| e.is_ascii_compatible());
    o.nontrivial = known.is_none();
    o.label(if known.is_none() { "unknown" } else { "known" });
    let l = || c.label.clone();
    let cd = CharDefBuilderOptions::default().builder().unwrap().build(p, p).map_err(|e| format!("{e:?}"))?;
    let rs = [
        ("char.def", CharDefBuilderOptions::default().encoding(l()).builder().unwrap().build(p, p).map(|_| ())),
        ("unk.def", UnkBuilderOptions::default().encoding(l()).unk_fields_num(5usize).builder().unwrap().build(p, &cd, p)),
        ("matrix.def", CostMatrixBuilderOptions::default().encoding(l()).builder().unwrap().build(p, p)),
        ("lexicon", DictBuilderOptions::default().encoding(l()).builder().unwrap().build(p, p)),
    ];
    for (n, r) in rs {
        o.steps += 1;
        if known.is_none() && r.is_ok() {
            return Err(format!("{n}: the unknown encoding {:?} was accepted", c.label));
        }
        if ascii && r.is_err() {
            return Err(format!("{n}: ASCII sources in {:?} refused: {r:?}", c.label));
        }
    }
    Ok(())
}

// -------------------------------------------------------------------------------------- lexicon

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LexOpts {
    files: Vec<Vec<Vec<String>>>,
    flexible: bool,
    skip: bool,
    normalize: bool,
}

fn csv_of(rows: &[Vec<String>]) -> String {
    rows.iter().map(|r| csv_line(r.iter().map(|s| s.as_str())) + "\n").collect()
}

fn numbers(r: &[String]) -> Option<(u16, u16, i16)> {
    Some((r[1].trim().parse().ok()?, r[2].trim().parse().ok()?, r[3].trim().parse().ok()?))
}

fn check_lexopts(c: &LexOpts, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    for (i, f) in c.files.iter().enumerate() {
        std::fs::write(sc.path().join(format!("l{i}.csv")), csv_of(f)).unwrap();
    }
    let rows: Vec<&Vec<String>> = c.files.iter().flatten().collect();
    let even = c.files.iter().all(|f| f.iter().all(|r| r.len() == f[0].len()));
    let short = rows.iter().any(|r| r.len() < 4);
    let nul = rows.iter().any(|r| r.iter().enumerate().any(|(i, f)| (i == 0 || i > 3) && f.contains('\0')));
    let bad = rows.iter().any(|r| r.len() >= 4 && numbers(r).is_none());
    let good = (even || c.flexible) && !short && !nul && (!bad || c.skip);
    o.label_if(!even && good, "rows of several widths");
    o.label_if(bad && good, "left-out rows");
    o.label(if good { "accepted" } else { "refused" });
    let r = DictBuilderOptions::default()
        .flexible_csv(c.flexible)
        .skip_invalid_cost_or_id(c.skip)
        .normalize_details(c.normalize)
        .builder()
        .unwrap()
        .build(sc.path(), sc.path());
    let ctx = || format!("flexible {}, skip {}, normalize {}, files {:?}", c.flexible, c.skip, c.normalize, c.files);
    if good != r.is_ok() {
        return Err(format!("{}: {}", ctx(), if good { format!("refused: {r:?}") } else { "accepted".to_string() }));
    }
    o.nontrivial = !even || bad;
    if !good {
        return Ok(());
    }
    let p = sc.path();
    for (n, t) in [("char.def", "DEFAULT 0 1 0\n"), ("unk.def", "DEFAULT,0,0,0,*\n"), ("matrix.def", "1 1\n0 0 0\n")] {
        std::fs::write(p.join(n), t).unwrap();
    }
    let cd = CharDefBuilderOptions::default().builder().unwrap().build(p, p).map_err(|e| format!("{e:?}"))?;
    UnkBuilderOptions::default().unk_fields_num(5usize).builder().unwrap().build(p, &cd, p).map_err(|e| format!("{e:?}"))?;
    CostMatrixBuilderOptions::default().builder().unwrap().build(p, p).map_err(|e| format!("{e:?}"))?;
    let d = DictionaryLoader::load_dictionary(p.to_path_buf()).map_err(|e| format!("loading: {e:?}"))?;
    let want: Vec<Row> = rows
        .iter()
        .filter_map(|r| numbers(r).map(|(left, right, cost)| Row { surface: r[0].clone(), left, right, cost, details: r[4..].to_vec() }))
        .collect();
    let f = |i| d.word_details(i);
    let by = lexicon_of(&want, c.normalize);
    Lex { by, details: &f, system: true }.all(&d.dict, &[], o).map_err(|e| format!("{}: {e}", ctx()))
}

const SURF: &[&str] = &["あ", "いあ", "―", "～", "—", "〜", "a―", "a—", "東京", "𠮷", "x,y", "\"", " ", "#", "ab", "abc"];
const NUMS: &[&str] = &["0", "1", "65535", "32767", " 7", "7 ", " 12 ", "007"];
const BADN: &[&str] = &["x", "", "65536", "99999999999999999999", "1.5", "１", "0x1", "-40000", "1 2"];
const DETS: &[&str] = &["*", "名詞", "", "―", "～x", "a,b", "q\"q", " s ", "한"];

fn lexopts() -> BoxedStrategy<LexOpts> {
    let row = (any::<[u8; 4]>(), vec(any::<u8>(), 0..=12), 0u8..40, any::<u8>());
    (vec(vec(row, 0..=8), 1..=3), 0usize..6, 0u8..4, any::<[bool; 3]>(), 0u8..3)
        .prop_map(|(files, width, odd, [flexible, skip, normalize], badness)| {
            let mut seen: BTreeMap<String, u32> = BTreeMap::new();
            let files = files
                .into_iter()
                .map(|f| {
                    let mut rows = vec![];
                    for (ids, dets, how, w) in f {
                        let pick = |v: &[&str], i: u8| v[i as usize % v.len()].to_string();
                        let mut r = vec![pick(SURF, ids[0])];
                        for i in &ids[1..] {
                            r.push(pick(NUMS, *i));
                        }
                        // a cost has 15 bits, and may be negative
                        if r[3] == "65535" {
                            r[3] = ["-1", "-32768", " -5"][ids[0] as usize % 3].into();
                        }
                        if badness > 0 && how < 4 {
                            r[1 + how as usize % 3] = pick(BADN, w);
                        }
                        let n = if odd == 0 && how >= 30 { w as usize % 12 } else { width };
                        for i in 0..n {
                            r.push(pick(DETS, dets.get(i).copied().unwrap_or(i as u8)));
                        }
                        if odd == 1 && how == 7 {
                            r.truncate(1 + w as usize % 3);
                        }
                        if how == 39 && w < 40 {
                            let i = w as usize % r.len();
                            r[i].push('\0');
                        }
                        let k = seen.entry(norm(Kind::Neologd, &r[0])).or_insert(0);
                        *k += 1;
                        if *k <= 31 {
                            rows.push(r);
                        }
                    }
                    rows
                })
                .collect();
            LexOpts { files, flexible, skip, normalize }
        })
        .boxed()
}

// --------------------------------------------------------------------------------- user lexicon

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UserOpts {
    rows: Vec<Vec<String>>,
    simple: usize,
    detailed: usize,
    cost: i16,
    context: u16,
    flexible: bool,
    /// 0 none, 1 the other columns reversed, 2 as 1 and an error for a row with a column "*"
    handler: u8,
    defaults: bool,
}

fn check_useropts(c: &UserOpts, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let p = sc.path().join("u.csv");
    std::fs::write(&p, csv_of(&c.rows)).unwrap();
    let (simple, detailed, cost, context, flexible, handler) =
        if c.defaults { (3, 4, -10000, 0, true, 0) } else { (c.simple, c.detailed, c.cost, c.context, c.flexible, c.handler) };
    let mut b = UserDictBuilderOptions::default();
    if !c.defaults {
        b = b
            .simple_userdic_fields_num(simple)
            .detailed_userdic_fields_num(detailed)
            .simple_word_cost(cost)
            .simple_context_id(context)
            .flexible_csv(flexible);
    }
    if handler > 0 {
        b = b.simple_userdic_details_handler(Box::new(move |r: &csv::StringRecord| {
            if handler == 2 && r.iter().any(|f| f == "*") {
                return Err(lindera_core::error::LinderaErrorKind::Content.with_error(anyhow::anyhow!("star")));
            }
            let mut d: Vec<String> = r.iter().skip(1).map(|s| s.to_string()).collect();
            d.reverse();
            Ok(d)
        }));
    }
    let r = b.builder().map_err(|e| format!("{e}"))?.build(&p);
    let mut good = flexible || c.rows.iter().all(|r| r.len() == c.rows[0].len());
    let mut by: BTreeMap<String, Vec<Meaning>> = BTreeMap::new();
    let (mut s, mut l) = (0, 0);
    for r in &c.rows {
        let m = if r.len() == simple {
            s += 1;
            let mut d = r[1..].to_vec();
            if handler > 0 {
                d.reverse();
            }
            if handler == 2 && r.iter().any(|f| f == "*") { None } else { Some((context, context, cost, d)) }
        } else if r.len() >= detailed {
            l += 1;
            match (r[1].parse(), r[2].parse(), r[3].parse()) {
                (Ok(a), Ok(b), Ok(k)) => Some((a, b, k, r[4..].to_vec())),
                _ => None,
            }
        } else {
            None
        };
        match m {
            Some(m) if !r[0].contains('\0') => by.entry(r[0].clone()).or_default().push(m),
            _ => good = false,
        }
    }
    let ctx = || format!("simple {simple}, detailed {detailed}, flexible {flexible}, handler {handler}, rows {:?}", c.rows);
    o.label(if good { "accepted" } else { "refused" });
    o.nontrivial = s > 0 && l > 0;
    let u = match (good, r) {
        (true, Ok(u)) => u,
        (false, Err(_)) => return Ok(()),
        (true, Err(e)) => return Err(format!("{}: refused: {e:?}", ctx())),
        (false, Ok(_)) => return Err(format!("{}: accepted", ctx())),
    };
    let f = |i| u.word_details(i);
    Lex { by: by.clone(), details: &f, system: false }.all(&u.dict, &[], o).map_err(|e| format!("{}: {e}", ctx()))?;
    let bin = sc.path().join("x").join("u.bin");
    build_user_dictionary(u, &bin).map_err(|e| format!("{e:?}"))?;
    let v = DictionaryLoader::load_user_dictionary_from_bin(bin).map_err(|e| format!("{e:?}"))?;
    let f = |i| v.word_details(i);
    Lex { by, details: &f, system: false }.all(&v.dict, &[], o).map_err(|e| format!("compiled, {}: {e}", ctx()))
}

fn useropts() -> BoxedStrategy<UserOpts> {
    let row = (any::<[u8; 4]>(), vec(any::<u8>(), 14), 0u8..40, any::<u8>());
    ((vec(row, 0..=10), 1usize..=8, 4usize..=9, cost(), any::<u16>()), any::<bool>(), 0u8..3, 0u8..6, any::<bool>())
        .prop_map(|((rows, simple, detailed, cost, context), flexible, handler, style, bad)| {
            let defaults = style == 0;
            let (sn, dn) = if defaults { (3, 4) } else { (simple, detailed) };
            let mut seen: BTreeMap<String, u32> = BTreeMap::new();
            let mut out = vec![];
            for (ids, dets, how, w) in rows {
                let pick = |v: &[&str], i: u8| v[i as usize % v.len()].to_string();
                let width = match style {
                    1 => sn,
                    2 => dn,
                    _ if w % 2 == 0 => sn,
                    _ => dn + (w as usize / 2) % 4,
                };
                let width = if bad && how == 3 { 1 + w as usize % 10 } else { width };
                let mut r = vec![pick(SURF, ids[0])];
                if width != sn {
                    r.push((ids[1] as u16 * 257).to_string());
                    r.push((ids[2] as u16).to_string());
                    r.push(((ids[3] as i16 - 128) * 256).to_string());
                    if bad && how < 3 {
                        r[1 + how as usize] = pick(BADN, w);
                    }
                }
                while r.len() < width {
                    r.push(pick(DETS, dets[r.len()]));
                }
                r.truncate(width);
                if bad && how == 5 && w < 30 {
                    r[0].push('\0');
                }
                let k = seen.entry(r[0].clone()).or_insert(0);
                *k += 1;
                if *k <= 31 {
                    out.push(r);
                }
            }
            UserOpts { rows: out, simple, detailed, cost, context, flexible, handler, defaults }
        })
        .boxed()
}

// -------------------------------------------------------------------------------- unknown words

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UnkOpts {
    fields: usize,
    default: bool,
    /// (category, left, right, cost, width)
    lines: Vec<(u8, u16, u16, i16, usize)>,
}

fn check_unkopts(c: &UnkOpts, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let p = sc.path();
    std::fs::write(p.join("char.def"), "DEFAULT 0 1 0\nA 1 1 0\nB 0 0 2\n").unwrap();
    let text: String = c
        .lines
        .iter()
        .map(|(k, l, r, cost, w)| format!("{},{l},{r},{cost}{}\n", ["DEFAULT", "A", "B"][*k as usize % 3], ",*".repeat(*w - 4)))
        .collect();
    std::fs::write(p.join("unk.def"), &text).unwrap();
    let n = if c.default { 11 } else { c.fields };
    let cd = CharDefBuilderOptions::default().builder().unwrap().build(p, p).map_err(|e| format!("{e:?}"))?;
    let mut b = UnkBuilderOptions::default();
    if !c.default {
        b.unk_fields_num(n);
    }
    let r = b.builder().unwrap().build(p, &cd, p);
    let good = c.lines.iter().all(|l| l.4 == n);
    o.label(if good { "accepted" } else { "refused" });
    o.nontrivial = c.lines.len() > 1;
    match (good, r) {
        (true, Err(e)) => return Err(format!("{n} fields: {text:?} refused: {e:?}")),
        (false, Ok(_)) => return Err(format!("{n} fields: {text:?} accepted")),
        (false, Err(_)) => return Ok(()),
        _ => {}
    }
    let u = DictionaryLoader::unknown_dict(p.to_path_buf()).map_err(|e| format!("{e:?}"))?;
    for (id, _) in cd.categories().iter().enumerate() {
        let got: Vec<(u16, u16, i16)> = u.lookup_word_ids(CategoryId(id)).iter().map(|w| u.word_entry(*w)).map(|e| (e.left_id, e.right_id, e.word_cost)).collect();
        let name = cd.category_name(CategoryId(id));
        let want: Vec<(u16, u16, i16)> =
            c.lines.iter().filter(|l| ["DEFAULT", "A", "B"][l.0 as usize % 3] == name).map(|l| (l.1, l.2, l.3)).collect();
        if got != want {
            return Err(format!("{n} fields: {text:?}: {name} has {got:?} instead of {want:?}"));
        }
        o.steps += 1;
    }
    Ok(())
}

fn unkopts() -> BoxedStrategy<UnkOpts> {
    (4usize..=30, any::<bool>(), vec((any::<u8>(), any::<u16>(), any::<u16>(), any::<i16>(), 0u8..12, 4usize..=30), 0..=8))
        .prop_map(|(fields, default, lines)| {
            let n = if default { 11 } else { fields };
            let lines = lines
                .into_iter()
                .map(|(k, l, r, c, how, w)| (k, l, r, c, match how { 0 => w, 1 => n + 1, 2 if n > 4 => n - 1, _ => n }))
                .collect();
            UnkOpts { fields, default, lines }
        })
        .boxed()
}

pub fn p27() -> Property {
    Property {
        id: "P27",
        suites: vec![
            suite("encodings", "a surface or a detail is not ASCII", 12_000, 400_000, || enc_case((0u16..3).boxed()), check_encoding),
            suite("large", "a surface or a detail is not ASCII", 240, 8_000, || enc_case((100u16..400).boxed()), check_encoding),
            suite("labels", "the label is not that of an encoding", 8_000, 200_000,
                || prop_oneof![3 => any_text(8), 2 => proptest::sample::select(LABELS).prop_map(String::from),
                    1 => proptest::sample::select(vec!["replacement", "hz-gb-2312", "iso-2022-kr", "utf-7", "utf-32", "UTF_8", "eucjp", "euc_jp", "cp932", "", " ", "unicode"]).prop_map(String::from)]
                    .prop_map(|label| LabelCase { label }).boxed(), check_label),
            suite("lexicon", "rows of several widths, or numbers that are none", 40_000, 1_500_000, lexopts, check_lexopts),
            suite("user lexicon", "short rows and long ones", 60_000, 2_000_000, useropts, check_useropts),
            suite("unknown words", "at least two lines", 40_000, 1_000_000, unkopts, check_unkopts),
        ],
        known: vec![],
        assumptions: vec![
            "characters an encoding does not carry are replaced beforehand; detailed user rows have at least four columns",
            "at most 31 rows share one surface",
        ],
    }
}
