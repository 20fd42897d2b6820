//! P12: damaged sources and components.
use crate::dicts::*;
use crate::gen::*;
use crate::runner::*;
use lindera_dictionary::DictionaryLoader;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Fault {
    file: u16,
    op: u8,
    a: u16,
    b: u16,
    tok: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct FaultCase {
    pub dict: DictSpec,
    pub user: Vec<URow>,
    pub faults: Vec<Fault>,
}

// Values near the 16-bit limits are left out of matrix.def: as its sizes they would be valid and
// ask for gigabytes.
const TOKENS: &[&str] = &[
    "", "-1", "x", "0", "1", "300", "65536", "-32769", "99999999999", "１", "1.5", " 7 ", "0x3042", "0xZZ", "0x110000", "0x3042..",
    "0x3042..0x3050..0x3060", "..", "DEFAULT", "NOSUCH", "\"", "\"a\nb\"", "#", "東", "\u{FEFF}", "+3", "0x", "1 2", "1,2", "\0", "a\0b",
    "65535", "32768", "40000", "-2147483648",
];
const MATRIX_TOKENS: usize = 31;

fn scale(i: u16, n: usize) -> usize {
    if n == 0 { 0 } else { (i as usize * n) >> 16 }
}

pub(super) fn apply(files: &mut Vec<(String, Vec<u8>)>, f: &Fault, euc: bool) -> &'static str {
    if files.is_empty() {
        return "none";
    }
    let fi = scale(f.file, files.len());
    let enc = |s: &str| if euc { encoding_rs::EUC_JP.encode(s).0.into_owned() } else { s.as_bytes().to_vec() };
    let name = files[fi].0.clone();
    let tok = TOKENS[scale(f.tok, if name == "matrix.def" { MATRIX_TOKENS } else { TOKENS.len() })];
    let sep: &[u8] = if name.ends_with(".csv") || name == "unk.def" { b"," } else { b" " };
    let lines: Vec<Vec<u8>> = files[fi].1.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let li = scale(f.a, lines.len());
    let join = |ls: Vec<Vec<u8>>| ls.join(&b'\n');
    let fields: Vec<Vec<u8>> = lines[li].split(|b| *b == sep[0]).map(|x| x.to_vec()).collect();
    let ci = scale(f.b, fields.len());
    let with_line = |l: Vec<Vec<u8>>| {
        let mut ls = lines.clone();
        ls[li] = l.join(sep);
        join(ls)
    };
    let (out, what) = match f.op % 14 {
        0 => {
            files.remove(fi);
            return "file removed";
        }
        1 => (vec![], "file emptied"),
        2 => {
            let n = scale(f.a, files[fi].1.len() + 1);
            (files[fi].1[..n].to_vec(), "truncated")
        }
        3 => {
            let mut ls = lines.clone();
            ls.remove(li);
            (join(ls), "line removed")
        }
        4 => {
            let mut ls = lines.clone();
            ls.insert(li, lines[scale(f.b, lines.len())].clone());
            (join(ls), "line repeated")
        }
        5 => {
            let mut ls = lines.clone();
            ls.insert(li, vec![]);
            (join(ls), "blank line")
        }
        6 => {
            let mut v = fields.clone();
            v.remove(ci);
            (with_line(v), "field removed")
        }
        7 => {
            let mut v = fields.clone();
            v.insert(ci, enc(tok));
            (with_line(v), "field added")
        }
        8 | 9 => {
            let mut v = fields.clone();
            v[ci] = enc(tok);
            (with_line(v), "field replaced")
        }
        10 => {
            let raw: &[u8] = [&b"\xff"[..], b"\x8e", b"\xe3\x81", b"\x8f\xa1", b"\xc0\x80", b"\xed\xa0\x80"][f.tok as usize % 6];
            let mut v = files[fi].1.clone();
            let at = scale(f.a, v.len() + 1);
            v.splice(at..at, raw.iter().copied());
            (v, "invalid bytes")
        }
        11 => {
            let mut v = files[fi].1.clone();
            let at = scale(f.a, v.len() + 1);
            v.splice(at..at, enc(tok));
            (v, "text inserted")
        }
        12 => {
            let mut v = fields.clone();
            let cj = scale(f.tok, fields.len());
            v.swap(ci, cj);
            (with_line(v), "fields swapped")
        }
        _ => {
            let mut ls = lines.clone();
            ls.push(enc(tok));
            (join(ls), "line added")
        }
    };
    files[fi].1 = out;
    what
}

fn fault() -> BoxedStrategy<Fault> {
    (any::<u16>(), any::<u8>(), any::<u16>(), any::<u16>(), any::<u16>())
        .prop_map(|(file, op, a, b, tok)| Fault { file, op, a, b, tok })
        .boxed()
}

pub(super) fn fault_case(n: usize) -> BoxedStrategy<FaultCase> {
    (dict_case(DictSize { rows: 6, user: 5, matrix: 3, alpha: 4 }), vec(fault(), 1..=n))
        .prop_map(|((dict, user, _), faults)| FaultCase { dict, user, faults })
        .boxed()
}

pub(super) fn sources(spec: &DictSpec) -> Vec<(String, Vec<u8>)> {
    spec.source_files().into_iter().map(|(n, t)| (n, spec.encode(&t))).collect()
}

fn show(files: &[(String, Vec<u8>)]) -> String {
    files
        .iter()
        .map(|(n, b)| format!("{n}={:?}", String::from_utf8_lossy(&b[..b.len().min(300)])))
        .collect::<Vec<_>>()
        .join(" ")
}

fn build_files(kind: Kind, files: &[(String, Vec<u8>)]) -> Result<Scratch, Option<String>> {
    let sc = Scratch::new();
    let src = sc.path().join("src");
    std::fs::create_dir_all(&src).unwrap();
    for (n, b) in files {
        std::fs::write(src.join(n), b).unwrap();
    }
    match catch(|| kind.builder().build_dictionary(&src, &sc.path().join("out"))) {
        Err(p) => Err(Some(p)),
        Ok(Err(_)) => Err(None),
        Ok(Ok(())) => Ok(sc),
    }
}

fn check_sources(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let mut files = sources(&c.dict);
    for f in &c.faults {
        o.label(apply(&mut files, f, c.dict.kind.euc()));
    }
    o.steps = 1;
    o.nontrivial = files != sources(&c.dict);
    match build_files(c.dict.kind, &files) {
        Err(Some(p)) => Err(format!("building {} sources {} {p}", c.dict.kind.name(), show(&files))),
        Err(None) => {
            o.label("rejected");
            Ok(())
        }
        Ok(sc) => {
            o.label("accepted");
            match catch(|| DictionaryLoader::load_dictionary(sc.path().join("out")).map(|_| ())) {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(format!("sources {} built, but loading fails: {e:?}", show(&files))),
                Err(p) => Err(format!("loading what was built from {} {p}", show(&files))),
            }
        }
    }
}

const BAD: [&str; 9] = ["x", "", "1.5", "０", "--1", "99999999999", "1e3", "0x10", "NaN"];

/// Damage that must be reported.
fn check_reported(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let kind = c.dict.kind;
    let mut files: Vec<(String, String)> = c.dict.source_files();
    let f = &c.faults[0];
    let target = ["char.def", "unk.def", "matrix.def", "lex0.csv"][f.file as usize % 4];
    let bad = BAD[f.tok as usize % 9];
    // ids and costs are 16 bits wide
    let bad_at = |col: usize| match (f.tok as usize % 13, col) {
        (9..=12, 3) => ["32768", "-32769", "65535", "-65536"][f.tok as usize % 4],
        (9..=12, _) => ["65536", "-1", "70000", "131072"][f.tok as usize % 4],
        (i, _) => BAD[i],
    };
    let fi = files.iter().position(|x| x.0 == target).unwrap();
    let mut lines: Vec<String> = files[fi].1.lines().map(|l| l.to_string()).collect();
    // rows whose quoted fields contain line breaks or commas are left to the other suite
    let simple = target != "lex0.csv" || lines.iter().all(|l| !l.contains('"'));
    let n = lines.len();
    let what;
    match (target, f.op % 4) {
        ("lex0.csv", 0) => {
            // too few columns to hold ids and cost
            if !simple || n == 0 {
                return Ok(());
            }
            let li = scale(f.a, n);
            let v: Vec<&str> = lines[li].split(',').collect();
            let keep = 1 + scale(f.b, 3);
            lines[li] = v[..keep].join(",");
            what = "row without ids and cost";
        }
        ("lex0.csv", 1) => {
            // CC-CEDICT accepts rows of different lengths
            if !simple || n < 2 || kind == Kind::CcCedict {
                return Ok(());
            }
            let li = scale(f.a, n);
            lines[li] += ",extra";
            what = "rows of different lengths";
        }
        ("lex0.csv", 2) => {
            // NUL separates the columns of the compiled details
            let li = scale(f.a, n);
            if !simple || n == 0 || lines[li].split(',').count() < 5 {
                return Ok(());
            }
            lines[li] += ["\0", "a\0b", "\0\0"][f.tok as usize % 3];
            what = "NUL in a detail";
        }
        ("lex0.csv", _) => {
            // CC-CEDICT skips rows whose numbers are unusable
            if !simple || n == 0 || kind == Kind::CcCedict {
                return Ok(());
            }
            let li = scale(f.a, n);
            let mut v: Vec<&str> = lines[li].split(',').collect();
            let col = 1 + scale(f.b, 3);
            v[col] = bad_at(col);
            lines[li] = v.join(",");
            what = "unusable id or cost";
        }
        (_, 0) => {
            files.remove(fi);
            what = "file missing";
        }
        ("char.def", 1) => {
            let li = scale(f.a, c.dict.cats.len());
            let mut v: Vec<&str> = lines[li].split(' ').collect();
            if f.b % 2 == 0 {
                v.remove(1 + scale(f.b, 3));
            } else {
                v.push("1");
            }
            lines[li] = v.join(" ");
            what = "category line with a wrong column count";
        }
        ("char.def", _) => {
            let ranges = n - c.dict.cats.len();
            if f.b % 2 == 0 && ranges > 0 {
                let li = c.dict.cats.len() + scale(f.a, ranges);
                lines[li] = lines[li].replacen("0x", ["0xG", "0x1", "0x_"][f.tok as usize % 3], 1);
                what = "bad code point";
                if lines[li].starts_with("0x1") {
                    // five digits: outside the format's 16 bits
                    let hex = lines[li][2..].split([' ', '.']).next().unwrap().len();
                    if hex != 5 {
                        return Ok(());
                    }
                }
            } else {
                let li = scale(f.a, c.dict.cats.len());
                let mut v: Vec<&str> = lines[li].split(' ').collect();
                if bad.is_empty() {
                    return Ok(());
                }
                v[1 + scale(f.b, 3)] = bad;
                lines[li] = v.join(" ");
                what = "non-numeric category flag";
            }
        }
        ("unk.def", 1) => {
            let li = scale(f.a, n);
            if f.b % 2 == 0 {
                let mut v: Vec<&str> = lines[li].split(',').collect();
                v.remove(scale(f.b, v.len()));
                lines[li] = v.join(",");
            } else {
                lines[li] += ",*";
            }
            what = "unk.def line with a wrong column count";
        }
        ("unk.def", _) => {
            let li = scale(f.a, n);
            let mut v: Vec<&str> = lines[li].split(',').collect();
            let col = 1 + scale(f.b, 3);
            v[col] = bad_at(col);
            lines[li] = v.join(",");
            what = "unusable id or cost in unk.def";
        }
        ("matrix.def", 1) => {
            let li = scale(f.a, n);
            let v: Vec<&str> = lines[li].split(' ').collect();
            let keep = if li == 0 { 1 } else { 1 + scale(f.b, 2) };
            lines[li] = v[..keep].join(" ");
            what = "matrix.def line with too few columns";
        }
        _ => {
            if bad.is_empty() {
                return Ok(());
            }
            let li = scale(f.a, n);
            let mut v: Vec<&str> = lines[li].split(' ').collect();
            let k = scale(f.b, v.len());
            v[k] = if li > 0 && v.len() == 3 && !bad_at(k + 1).is_empty() { bad_at(k + 1) } else { bad };
            lines[li] = v.join(" ");
            what = "unusable id or cost in matrix.def";
        }
    }
    if let Some(x) = files.iter_mut().find(|x| x.0 == target) {
        x.1 = lines.iter().map(|l| format!("{l}\n")).collect();
    }
    o.label(what);
    o.steps = 1;
    o.nontrivial = true;
    let files: Vec<(String, Vec<u8>)> = files.into_iter().map(|(n, t)| (n, c.dict.encode(&t))).collect();
    match build_files(kind, &files) {
        Err(None) => Ok(()),
        Err(Some(p)) => Err(format!("{what}: building {} sources {} {p}", kind.name(), show(&files))),
        Ok(_) => Err(format!("{what}: {} sources {} were accepted", kind.name(), show(&files))),
    }
}

fn check_user(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let kind = c.dict.kind;
    let mut files = vec![("u.csv".to_string(), user_csv(&c.user).into_bytes())];
    for f in &c.faults {
        if f.op % 14 != 0 {
            o.label(apply(&mut files, f, false));
        }
    }
    let sc = Scratch::new();
    let p = sc.path().join("u.csv");
    std::fs::write(&p, &files[0].1).unwrap();
    o.steps = 1;
    o.nontrivial = true;
    let out = sc.path().join("u.bin");
    match catch(|| kind.builder().build_user_dictionary(&p, &out)) {
        Err(e) => Err(format!("{} user dictionary {} {e}", kind.name(), show(&files))),
        Ok(Err(_)) => {
            o.label("rejected");
            Ok(())
        }
        Ok(Ok(())) => {
            o.label("accepted");
            match catch(|| DictionaryLoader::load_user_dictionary_from_bin(out.clone()).map(|u| u.word_details(0))) {
                Ok(Ok(_)) => Ok(()),
                Ok(Err(e)) => Err(format!("user dictionary {} built, but loading fails: {e:?}", show(&files))),
                Err(e) => Err(format!("loading the compiled user dictionary of {} {e}", show(&files))),
            }
        }
    }
}

/// user dictionary damage that must be reported
fn check_user_reported(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let kind = c.dict.kind;
    let f = &c.faults[0];
    let dc = kind.detail_cols();
    let nrows = 1 + scale(f.file, 3);
    let mut rows: Vec<Vec<String>> = (0..nrows)
        .map(|i| {
            let mut v = vec![format!("語{i}"), "0".into(), "0".into(), format!("{i}")];
            v.extend((0..dc).map(|j| format!("d{j}")));
            v
        })
        .collect();
    let li = scale(f.a, nrows);
    let what;
    match f.op % 3 {
        0 => {
            let col = 1 + scale(f.b, 3);
            let bad = match (f.tok as usize % 12, col) {
                (8.., 3) => ["32768", "-32769", "65535", "-65536"][f.tok as usize % 4],
                (8.., _) => ["65536", "-1", "70000", "131072"][f.tok as usize % 4],
                (i, _) => BAD[i],
            };
            rows[li][col] = bad.into();
            what = "unusable id or cost";
        }
        1 => {
            // neither a simple row (3) nor long enough for a detailed one
            let widths: Vec<usize> = (1..4 + dc).filter(|w| *w != 3).collect();
            let w = widths[scale(f.b, widths.len())];
            if kind.normalizes() {
                rows[li].truncate(w);
            } else {
                rows.iter_mut().for_each(|r| r.truncate(w));
            }
            what = "wrong column count";
        }
        _ => {
            if kind.normalizes() || nrows < 2 {
                return Ok(());
            }
            rows[li].push("x".into());
            what = "rows of different lengths";
        }
    }
    let text: String = rows.iter().map(|r| r.join(",") + "\n").collect();
    let sc = Scratch::new();
    let p = sc.path().join("u.csv");
    std::fs::write(&p, &text).unwrap();
    o.label(what);
    o.steps = 1;
    o.nontrivial = true;
    match catch(|| kind.builder().build_user_dict(&p).map(|_| ())) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => Err(format!("{what}: {} user dictionary {text:?} was accepted", kind.name())),
        Err(e) => Err(format!("{what}: {} user dictionary {text:?} {e}", kind.name())),
    }
}

const COMPONENTS: &[&str] = &["char_def.bin", "unk.bin", "matrix.mtx", "dict.da", "dict.vals", "dict.words", "dict.wordsidx"];

fn check_components(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let (src, out) = (sc.path().join("src"), sc.path().join("out"));
    c.dict.build_to(&src, &out).map_err(|e| format!("valid dictionary: {e:?}"))?;
    let mut missing = false;
    for f in &c.faults {
        let name = COMPONENTS[scale(f.file, COMPONENTS.len())];
        let p = out.join(name);
        let Ok(b) = std::fs::read(&p) else { continue };
        match f.op % 5 {
            0 => {
                std::fs::remove_file(&p).unwrap();
                missing = true;
                o.label("missing");
            }
            1 => {
                std::fs::write(&p, b"").unwrap();
                o.label("emptied");
            }
            2 => {
                std::fs::write(&p, &b[..scale(f.a, b.len())]).unwrap();
                o.label("truncated");
            }
            3 => {
                std::fs::write(&p, &b[..scale(f.a, 8).min(b.len())]).unwrap();
                o.label("first bytes only");
            }
            _ => {
                // damaged bytes only in the self-describing components
                let mut b = b;
                if name.ends_with(".bin") && !b.is_empty() {
                    let at = scale(f.a, b.len());
                    b[at] ^= 1 << (f.tok % 8);
                }
                std::fs::write(&p, &b).unwrap();
                o.label("bit flipped");
            }
        }
    }
    o.steps = 1;
    o.nontrivial = true;
    match catch(|| DictionaryLoader::load_dictionary(out.clone()).map(|_| ())) {
        Err(p) => Err(format!("loading a damaged dictionary ({:?}) {p}", c.faults)),
        Ok(Ok(())) if missing => Err("a dictionary with a missing component was loaded".into()),
        _ => Ok(()),
    }
}

fn check_user_bin(c: &FaultCase, o: &mut Obs) -> CheckResult {
    if c.user.is_empty() {
        return Ok(());
    }
    let sc = Scratch::new();
    let (p, out) = (sc.path().join("u.csv"), sc.path().join("u.bin"));
    std::fs::write(&p, user_csv(&c.user)).unwrap();
    c.dict.kind.builder().build_user_dictionary(&p, &out).map_err(|e| format!("{e:?}"))?;
    let mut b = std::fs::read(&out).unwrap();
    for f in &c.faults {
        match f.op % 3 {
            0 => b.truncate(scale(f.a, b.len() + 1)),
            1 if !b.is_empty() => {
                let at = scale(f.a, b.len());
                b[at] ^= 1 << (f.tok % 8);
            }
            _ => b.extend_from_slice(&f.a.to_le_bytes()),
        }
    }
    std::fs::write(&out, &b).unwrap();
    o.steps = 1;
    o.nontrivial = true;
    catch(|| DictionaryLoader::load_user_dictionary_from_bin(out.clone()).map(|_| ()))
        .map(|_| ())
        .map_err(|p| format!("loading a damaged compiled user dictionary {p}"))
}

pub fn p12() -> Property {
    Property {
        id: "P12",
        suites: vec![
            suite("sources", "the damaged sources differ from the valid ones", 100_000, 5_000_000, || fault_case(3), check_sources),
            suite("reported", "damage of a kind that must be reported was applied", 60_000, 2_000_000, || fault_case(1), check_reported),
            suite("user", "every case", 60_000, 3_000_000, || fault_case(3), check_user),
            suite("user_reported", "damage of a kind that must be reported was applied", 40_000, 1_000_000, || fault_case(1), check_user_reported),
            suite("components", "every case", 30_000, 1_000_000, || fault_case(2), check_components),
            suite("user_bin", "every case with user rows", 30_000, 1_000_000, || fault_case(3), check_user_bin),
        ],
        known: vec![],
        assumptions: vec![
            "damage does not ask for a connection matrix of several gigabytes",
            "only loading is exercised on damaged components, not tokenizing with them",
        ],
    }
}
