//! P26: the command line program against the library.
use super::ana::{char_spec, compose_case, hand, large_ana_case, AnaCase};
use super::fault::{self, fault_case, FaultCase};
use crate::dicts::*;
use crate::runner::*;
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::DictionaryLoader;
use lindera_tokenizer::tokenizer::Tokenizer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const RUN_LIMIT_S: u64 = 60;

pub(super) struct Ran {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}

fn program() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("lindera")
}

fn run(args: &[String], stdin: Option<&[u8]>, cwd: &Path) -> Result<Ran, String> {
    run_program(&program(), args, stdin, cwd)
}

pub(super) fn run_program(program: &Path, args: &[String], stdin: Option<&[u8]>, cwd: &Path) -> Result<Ran, String> {
    let mut c = Command::new(program);
    c.args(args).current_dir(cwd).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut ch = c.spawn().map_err(|e| format!("cannot start the program: {e}"))?;
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let si = ch.stdin.take();
    std::thread::scope(|s| {
        let out = s.spawn(move || {
            let mut v = vec![];
            let _ = so.read_to_end(&mut v);
            v
        });
        let err = s.spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        if let Some(b) = stdin {
            s.spawn(move || {
                let mut si = si.unwrap();
                let _ = si.write_all(b);
            });
        }
        let t0 = std::time::Instant::now();
        let mut nap = 200;
        let status = loop {
            if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
                break st;
            }
            if t0.elapsed().as_secs() > RUN_LIMIT_S {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(format!("lindera {args:?} did not finish within {RUN_LIMIT_S} s"));
            }
            std::thread::sleep(std::time::Duration::from_micros(nap));
            nap = (nap * 2).min(5000);
        };
        Ok(Ran {
            code: status.code(),
            out: out.join().unwrap(),
            err: String::from_utf8_lossy(&err.join().unwrap()).into_owned(),
        })
    })
}

/// Refused: a non-zero status of its own choice, no panic and no signal.
fn refused(args: &[String], r: &Ran) -> CheckResult {
    match r.code {
        Some(0) => Err(format!("lindera {args:?} ended with status 0, printing {:?}", String::from_utf8_lossy(&r.out))),
        Some(101) | None => Err(format!("lindera {args:?} crashed: {}", r.err)),
        Some(_) => Ok(()),
    }
}

// ------------------------------------------------------------------------------------ tokenize

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CliCase {
    ana: AnaCase,
    format: u8,
    /// bit 0: file, bits 1..: long flags, default mode and format left out, final newline
    how: u8,
    /// per text: white space before, after, and blank lines before it
    pads: Vec<(u8, u8, u8)>,
}

const WHITE: &[&str] = &["", "", "", " ", "\t", "\u{3000}", " \u{A0}", "\r", "\u{2003}\r"];

fn input(c: &CliCase) -> String {
    let mut s = String::new();
    for (i, t) in c.ana.texts.iter().enumerate() {
        let (a, b, blank) = c.pads.get(i).copied().unwrap_or((0, 0, 0));
        match blank % 8 {
            6 => s.push('\n'),
            7 => s.push_str("\u{3000} \r\n"),
            _ => {}
        }
        s.push_str(WHITE[a as usize % WHITE.len()]);
        s.push_str(t);
        // some lines are longer than any input buffer
        if i == 0 && c.how >= 240 && !t.is_empty() {
            let n = [9_000, 20_000, 70_000, 140_000][c.format as usize / 3 % 4];
            if n > 9_000 && t.len() < 200 && c.ana.filters.is_empty() {
                // in sentences, which keeps it fast
                s.push_str(&format!("。{t}").repeat(n / (t.len() + 3)));
            } else {
                let n = if c.ana.filters.is_empty() { 9_000 } else { 3_000 };
                s.push_str(&t.repeat(n / t.len()));
            }
        }
        s.push_str(WHITE[b as usize % WHITE.len()]);
        s.push('\n');
    }
    if c.how & 16 != 0 {
        s.pop();
    }
    s
}

pub(super) fn lines(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = text.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    v.into_iter().map(|l| l.trim()).collect()
}

fn cli_mode(m: &ModeSpec) -> ModeSpec {
    match m {
        ModeSpec::Normal => ModeSpec::Normal,
        _ => match Mode::Decompose(Penalty::default()) {
            Mode::Decompose(p) => ModeSpec::Decompose {
                kt: p.kanji_penalty_length_threshold,
                kp: p.kanji_penalty_length_penalty,
                ot: p.other_penalty_length_threshold,
                op: p.other_penalty_length_penalty,
            },
            Mode::Normal => unreachable!(),
        },
    }
}

struct Setup {
    sc: Scratch,
    args: Vec<String>,
    tok: Tokenizer,
}

/// Build the dictionaries, and the arguments naming them.
fn setup(a: &AnaCase, long: bool) -> Result<Setup, String> {
    let spec = a.dict.clone().unwrap_or_else(char_spec);
    let sc = Scratch::new();
    let out = sc.path().join("dict");
    spec.build_to(&sc.path().join("src"), &out).map_err(|e| format!("build: {e:?}"))?;
    let d = DictionaryLoader::load_dictionary(out.clone()).map_err(|e| format!("load: {e:?}"))?;
    let mut args = vec!["tokenize".to_string(), if long { "--dic-dir" } else { "-d" }.into(), out.display().to_string()];
    let mut user = None;
    if a.dict.is_some() && !a.user.is_empty() {
        let (csv, bin) = (sc.path().join("user.csv"), sc.path().join("user.bin"));
        std::fs::write(&csv, user_csv(&a.user)).unwrap();
        spec.kind.builder().build_user_dictionary(&csv, &bin).map_err(|e| format!("user dictionary: {e:?}"))?;
        args.push(if long { "--user-dic-file" } else { "-u" }.into());
        args.push(bin.display().to_string());
        user = Some(DictionaryLoader::load_user_dictionary_from_bin(bin).map_err(|e| format!("user dictionary: {e:?}"))?);
    }
    let tok = Tokenizer::new(d, user, cli_mode(&a.mode).real());
    Ok(Setup { sc, args, tok })
}

fn rest(c: &CliCase, args: &mut Vec<String>) {
    let long = c.how & 2 != 0;
    let format = ["mecab", "wakati", "json"][c.format as usize % 3];
    if c.how & 4 == 0 || c.ana.mode != ModeSpec::Normal {
        args.push(if long { "--mode" } else { "-m" }.into());
        args.push(if c.ana.mode == ModeSpec::Normal { "normal" } else { "decompose" }.into());
    }
    if c.how & 8 == 0 || format != "mecab" {
        args.push(if long { "--output-format" } else { "-o" }.into());
        args.push(format.into());
    }
    // the order of the flags of one sort is the order of the filters
    let mut cf = c.ana.filters.iter().map(|f| (if long { "--character-filter" } else { "-C" }, format!("{}:{}", f.kind(), f.args())));
    let mut tf = c.ana.token_filters.iter().map(|f| (if long { "--token-filter" } else { "-T" }, format!("{}:{}", f.kind(), f.args())));
    loop {
        let (a, b) = if c.how & 32 != 0 { (tf.next(), cf.next()) } else { (cf.next(), tf.next()) };
        if a.is_none() && b.is_none() {
            break;
        }
        for (k, v) in [a, b].into_iter().flatten() {
            args.push(k.into());
            args.push(v);
        }
    }
}

pub(super) type Line = Vec<(String, Value)>;

pub(super) fn library(ana: &Analyzer, text: &str) -> Result<Option<Line>, String> {
    match catch(|| ana.analyze(text)) {
        Err(p) => Err(format!("analyze({text:?}) {p}")),
        Ok(Err(_)) => Ok(None),
        Ok(Ok(v)) => Ok(Some(
            v.iter()
                .map(|t| {
                    let j = json!({"text": t.text, "details": t.details, "byte_start": t.byte_start, "byte_end": t.byte_end,
                                   "word_id": serde_json::to_value(t.word_id).unwrap()});
                    (t.text.clone(), j)
                })
                .collect(),
        )),
    }
}

/// The mecab format.
pub(super) fn mecab(lines: &[Line]) -> String {
    let mut w = String::new();
    for l in lines {
        for (t, j) in l {
            w += &format!("{t}\t{}\n", details(j));
        }
        w += "EOS\n";
    }
    w
}

fn details(j: &Value) -> String {
    j["details"].as_array().unwrap().iter().map(|d| d.as_str().unwrap()).collect::<Vec<_>>().join(",")
}

fn check_tokenize(c: &CliCase, o: &mut Obs) -> CheckResult {
    let Setup { sc, mut args, tok } = setup(&c.ana, c.how & 2 != 0)?;
    rest(c, &mut args);
    let text = input(c);
    let ana = hand(&c.ana, tok, false)?;
    let mut want: Vec<Line> = vec![];
    let mut failing = false;
    for l in lines(&text) {
        match library(&ana, l)? {
            Some(v) => want.push(v),
            None => {
                failing = true;
                break;
            }
        }
    }
    let r = if c.how & 1 != 0 {
        let p = sc.path().join("input.txt");
        std::fs::write(&p, &text).unwrap();
        args.push(p.display().to_string());
        o.label("from a file");
        run(&args, None, sc.path())?
    } else {
        o.label("from standard input");
        run(&args, Some(text.as_bytes()), sc.path())?
    };
    if failing {
        o.label("analysis fails");
        refused(&args, &r)?;
    } else if r.code != Some(0) {
        return Err(format!("lindera {args:?} on {text:?} ended with {:?}: {}", r.code, r.err));
    }
    let got = String::from_utf8(r.out).map_err(|_| format!("lindera {args:?} on {text:?}: the output is not UTF-8"))?;
    let fail = |want: &str| Err(format!("lindera {args:?} on {text:?} prints {got:?} instead of {want:?}"));
    match c.format % 3 {
        0 => {
            let w = mecab(&want);
            o.label("mecab");
            if got != w {
                return fail(&w);
            }
        }
        1 => {
            let mut w = String::new();
            for l in want.iter().filter(|l| !l.is_empty()) {
                w += &l.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(" ");
                w += "\n";
            }
            o.label("wakati");
            if got != w {
                return fail(&w);
            }
        }
        _ => {
            o.label("json");
            let v: Vec<Value> = serde_json::Deserializer::from_str(&got)
                .into_iter::<Value>()
                .collect::<Result<_, _>>()
                .map_err(|e| format!("lindera {args:?} on {text:?} prints {got:?}: {e}"))?;
            let w: Vec<Value> = want.iter().map(|l| Value::Array(l.iter().map(|x| x.1.clone()).collect())).collect();
            if v != w {
                return fail(&serde_json::to_string(&w).unwrap());
            }
        }
    }
    o.steps += want.len() as u64;
    o.nontrivial = want.iter().map(|l| l.len()).sum::<usize>() > 1;
    o.label_if(!c.ana.filters.is_empty(), "character filters");
    o.label_if(!c.ana.token_filters.is_empty(), "token filters");
    o.label_if(args.iter().any(|a| a.ends_with("user.bin")), "user dictionary");
    o.label_if(c.ana.mode != ModeSpec::Normal, "decompose");
    Ok(())
}

fn cli_case() -> BoxedStrategy<CliCase> {
    (compose_case(), any::<u8>(), any::<u8>(), vec((any::<u8>(), any::<u8>(), any::<u8>()), 4))
        .prop_map(|(ana, format, how, pads)| CliCase { ana, format, how, pads })
        .boxed()
}

/// Long lines, or very many.
fn large_cli_case() -> BoxedStrategy<CliCase> {
    (cli_case(), large_ana_case(), any::<bool>(), 1usize..4_000)
        .prop_map(|(mut c, large, long, n)| {
            if long {
                c.ana = AnaCase { token_filters: c.ana.token_filters, ..large };
            } else {
                c.ana.texts = c.ana.texts.iter().cycle().take(n).cloned().collect();
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------------------ refusals

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    base: CliCase,
    what: u8,
    pick: u8,
}

fn check_refused(c: &BadCase, o: &mut Obs) -> CheckResult {
    let Setup { sc, mut args, .. } = setup(&c.base.ana, false)?;
    rest(&c.base, &mut args);
    let mut text = input(&c.base).into_bytes();
    let s = |x: &str| x.to_string();
    let set = |args: &mut Vec<String>, flags: [&str; 2], v: &str| {
        match args.iter().position(|a| flags.contains(&a.as_str())) {
            Some(i) => args[i + 1] = s(v),
            None => args.extend([s(flags[0]), s(v)]),
        }
    };
    let word = ["", "x", "Normal", "JSON", "mecab ", "ipadic", "wakachi", "normal,decompose", "search", "ipadic_neologd"][c.pick as usize % 10];
    let kinds = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
    let what = match c.what % 16 {
        0 => {
            set(&mut args, ["-o", "--output-format"], word);
            "unknown format"
        }
        1 => {
            set(&mut args, ["-m", "--mode"], word);
            "unknown mode"
        }
        2 => {
            args.extend([s("-C"), format!("{}:{{}}", ["nfc", "", "unicode-normalize", "lowercase"][c.pick as usize % 4])]);
            "unknown character filter"
        }
        3 => {
            args.extend([s("-T"), format!("{}:{{}}", ["lower", "", "japanese-number", "unicode_normalize"][c.pick as usize % 4])]);
            "unknown token filter"
        }
        4 => {
            args.extend([s("-C"), s(["unicode_normalize:{\"kind\":\"nfx\"}", "mapping:{", "mapping:[1]", "regex:{\"pattern\":\"(\",\"replacement\":\"\"}", "unicode_normalize:{}"][c.pick as usize % 5])]);
            "character filter arguments"
        }
        5 => {
            args.extend([s("-T"), s(["length:{\"min\":\"a\"}", "japanese_stop_tags:{", "japanese_base_form:{\"kind\":\"x\"}", "stop_words:{\"words\":3}", "japanese_kana:{}"][c.pick as usize % 5])]);
            "token filter arguments"
        }
        6 => {
            set(&mut args, ["-d", "--dic-dir"], sc.path().join("nowhere").to_str().unwrap());
            "missing dictionary"
        }
        7 => {
            let d = sc.path().join("dict");
            let mut f: Vec<_> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).collect();
            f.sort();
            std::fs::remove_file(&f[c.pick as usize % f.len()]).unwrap();
            "missing dictionary file"
        }
        8 => {
            set(&mut args, ["-u", "--user-dic-file"], sc.path().join(["none.bin", "none.csv", "none", "none.txt"][c.pick as usize % 4]).to_str().unwrap());
            "missing user dictionary"
        }
        9 => {
            let p = sc.path().join("u.csv");
            std::fs::write(&p, "東京,名詞,トウキョウ\n").unwrap();
            set(&mut args, ["-u", "--user-dic-file"], p.to_str().unwrap());
            "user dictionary CSV without a type"
        }
        10 => {
            args.push(sc.path().join("no-input.txt").display().to_string());
            "missing input file"
        }
        11 => {
            let bad: &[u8] = [&b"\xff"[..], b"\xe3\x81", b"\xc0\x80", b"\xed\xa0\x80"][c.pick as usize % 4];
            let valid = std::str::from_utf8(&text).unwrap();
            let ends: Vec<usize> = (0..=text.len()).filter(|i| valid.is_char_boundary(*i)).collect();
            let at = ends[c.base.how as usize * ends.len() / 256];
            text.splice(at..at, bad.iter().copied());
            "input that is not UTF-8"
        }
        12 => {
            let i = args.iter().position(|a| a == "-d").unwrap();
            args.drain(i..i + 2);
            "no dictionary"
        }
        13 => {
            // nothing is compiled into this program
            let l = run(&[s("list")], None, sc.path())?;
            if l.code != Some(0) || !l.out.is_empty() {
                return Err(format!("`list` of a program without dictionaries: {:?}", (l.code, &l.out)));
            }
            let i = args.iter().position(|a| a == "-d").unwrap();
            args[i] = s("-t");
            args[i + 1] = s(kinds[c.pick as usize % 5]);
            "a kind that is not contained"
        }
        14 => {
            args[0] = s(["", "tokenise", "--help-me", "-x"][c.pick as usize % 4]);
            "unknown command"
        }
        _ => {
            set(&mut args, ["-t", "--dic-type"], ["", "IPADIC", "ipadic-neo", "jumandic", "cc_cedict"][c.pick as usize % 5]);
            "unknown kind"
        }
    };
    o.label(what);
    o.nontrivial = true;
    let r = run(&args, Some(&text), sc.path())?;
    refused(&args, &r).map_err(|m| format!("{what}: {m}"))
}

fn bad_case() -> BoxedStrategy<BadCase> {
    (cli_case(), any::<u8>(), any::<u8>()).prop_map(|(base, what, pick)| BadCase { base, what, pick }).boxed()
}

// --------------------------------------------------------------------------------------- build

type Files = Vec<(String, Vec<u8>)>;

fn read_all(d: &Path) -> Files {
    let mut v: Files = std::fs::read_dir(d)
        .into_iter()
        .flatten()
        .map(|e| e.unwrap())
        .map(|e| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap_or_default()))
        .collect();
    v.sort();
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BuildCase {
    f: FaultCase,
    damage: bool,
    how: u8,
}

fn same_files(args: &[String], got: &Files, want: &Files) -> CheckResult {
    let names = |f: &Files| f.iter().map(|x| (x.0.clone(), x.1.len())).collect::<Vec<_>>();
    if names(got) != names(want) {
        return Err(format!("lindera {args:?} wrote {:?}, the library {:?}", names(got), names(want)));
    }
    match got.iter().zip(want).find(|(a, b)| a != b) {
        Some((a, _)) => Err(format!("lindera {args:?} wrote another {} than the library", a.0)),
        None => Ok(()),
    }
}

fn check_build(c: &BuildCase, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let kind = c.f.dict.kind;
    let p = |n: &str| sc.path().join(n);
    let s = |x: &Path| x.display().to_string();
    let t = if c.how & 1 != 0 { "--dic-type" } else { "-t" };
    let (args, lib): (Vec<String>, Result<Result<(), String>, String>) = if c.how & 2 != 0 {
        // a user dictionary
        let mut files = vec![("user.csv".to_string(), user_csv(&c.f.user).into_bytes())];
        if c.damage {
            for f in &c.f.faults {
                fault::apply(&mut files, f, false);
            }
        }
        let stem = ["user", "my.words", "語彙", "u v"][c.how as usize / 4 % 4];
        let csv = p(&format!("{stem}.csv"));
        if let Some(f) = files.first() {
            std::fs::write(&csv, &f.1).unwrap();
        }
        std::fs::create_dir(p("lib")).unwrap();
        std::fs::create_dir(p("cli")).unwrap();
        let lib = catch(|| kind.builder().build_user_dictionary(&csv, &p("lib").join(format!("{stem}.bin"))).map_err(|e| format!("{e:?}")));
        let u = if c.how & 1 != 0 { "--build-user-dic" } else { "-u" };
        o.label("user dictionary");
        (vec!["build".into(), u.into(), t.into(), kind.name().into(), s(&csv), s(&p("cli"))], lib)
    } else {
        let mut files = fault::sources(&c.f.dict);
        if c.damage {
            for f in &c.f.faults {
                fault::apply(&mut files, f, kind.euc());
            }
        }
        std::fs::create_dir(p("src")).unwrap();
        for (n, b) in &files {
            std::fs::write(p("src").join(n), b).unwrap();
        }
        let lib = catch(|| kind.builder().build_dictionary(&p("src"), &p("lib")).map_err(|e| format!("{e:?}")));
        o.label("dictionary");
        (vec!["build".into(), t.into(), kind.name().into(), s(&p("src")), s(&p("cli"))], lib)
    };
    let r = run(&args, None, sc.path())?;
    o.nontrivial = true;
    match lib {
        Err(m) => Err(format!("the library {m}")),
        Ok(Ok(())) => {
            o.label("accepted");
            if r.code != Some(0) {
                return Err(format!("lindera {args:?} ended with {:?}, but the library succeeds: {}", r.code, r.err));
            }
            same_files(&args, &read_all(&p("cli")), &read_all(&p("lib")))
        }
        Ok(Err(_)) => {
            o.label("refused");
            refused(&args, &r)
        }
    }
}

fn build_case() -> BoxedStrategy<BuildCase> {
    (fault_case(2), proptest::bool::weighted(0.3), any::<u8>()).prop_map(|(f, damage, how)| BuildCase { f, damage, how }).boxed()
}

pub fn p26() -> Property {
    Property {
        id: "P26",
        suites: vec![
            suite("tokenize", "two or more tokens are printed", 16_000, 400_000, cli_case, check_tokenize),
            suite("large", "two or more tokens are printed", 400, 10_000, large_cli_case, check_tokenize),
            suite("refusals", "every case has one invalid argument or input", 4_000, 100_000, bad_case, check_refused),
            suite("build", "every case builds a dictionary or user dictionary", 8_000, 200_000, build_case, check_build),
        ],
        known: vec![],
        assumptions: vec![
            "the program is compiled with the filter feature and without embedded dictionaries (P13 covers those)",
            "white space around lines is what str::trim removes",
        ],
    }
}
