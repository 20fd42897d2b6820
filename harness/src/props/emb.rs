//! P13: dictionaries compiled into the library. The crates in ../embed are built by their own build
//! scripts from generated sources, which are put where the scripts keep what they have downloaded.
use super::ana::{hand, AnaCase};
use super::cli::{library, lines, mecab, run_program};
use crate::dicts::*;
use crate::gen::*;
use crate::runner::*;
use crate::toks::TF;
use lindera_dictionary::DictionaryLoader;
use lindera_tokenizer::tokenizer::Tokenizer;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

/// Where each build script looks for its sources.
fn tarball(k: Kind) -> &'static str {
    match k {
        Kind::Ipadic => "mecab-ipadic-2.7.0-20070801",
        Kind::Neologd => "mecab-ipadic-neologd-0.0.7-20200820",
        Kind::Unidic => "unidic-mecab-2.1.2",
        Kind::KoDic => "mecab-ko-dic-2.1.1-20180720",
        Kind::CcCedict => "CC-CEDICT-MeCab-0.1.0-20200409",
    }
}

fn embed_dir() -> PathBuf {
    verif_dir().join("embed")
}
fn target() -> PathBuf {
    embed_dir().join("target")
}

const VARIANTS: [(&str, &[&str]); 2] = [("plain", &[]), ("compressed", &["--features", "compress"])];

fn cargo(features: &[&str], docs: bool, json: bool) -> Result<(bool, String, String), String> {
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--bins"]).args(features).current_dir(embed_dir());
    if json {
        c.arg("--message-format=json");
    }
    c.env("CARGO_TARGET_DIR", target()).stdin(Stdio::null());
    if docs {
        c.env("DOCS_RS", "1");
    } else {
        c.env_remove("DOCS_RS");
    }
    let o = c.output().map_err(|e| format!("cannot run cargo: {e}"))?;
    Ok((o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned()))
}

fn subdirs(d: &Path) -> Vec<PathBuf> {
    std::fs::read_dir(d).into_iter().flatten().map(|e| e.unwrap().path()).collect()
}

/// The build directories of a kind's crate: its name and a hash.
fn unit_dirs(parent: &str, k: Kind) -> Vec<PathBuf> {
    let prefix = format!("lindera-{}-", k.name());
    subdirs(&target().join("debug").join(parent))
        .into_iter()
        .filter(|p| {
            let n = p.file_name().unwrap().to_str().unwrap();
            n.strip_prefix(&prefix).map_or(false, |h| h.len() == 16 && h.bytes().all(|b| b.is_ascii_hexdigit()))
        })
        .collect()
}

/// Forget that the dictionary crates were built.
fn forget() {
    for k in KINDS {
        for d in unit_dirs(".fingerprint", k) {
            for f in subdirs(&d) {
                let n = f.file_name().unwrap().to_str().unwrap().to_string();
                if n.contains("lib-") || n.starts_with("run-") {
                    std::fs::remove_file(&f).unwrap();
                }
            }
        }
    }
}

/// Empty what the build scripts left.
fn clear(out: &Path) {
    for p in subdirs(out) {
        if p.is_dir() {
            std::fs::remove_dir_all(&p).unwrap();
        } else {
            std::fs::remove_file(&p).unwrap();
        }
    }
}

/// Compile everything once with the dummy dictionaries the build scripts make themselves, which
/// needs no network; the output directories of the scripts, per variant and kind.
fn prepare() -> &'static Vec<Vec<(Kind, PathBuf)>> {
    static P: OnceLock<Vec<Vec<(Kind, PathBuf)>>> = OnceLock::new();
    P.get_or_init(|| {
        forget();
        for k in KINDS {
            for d in unit_dirs("build", k) {
                clear(&d.join("out"));
            }
        }
        let mut all = vec![];
        for (name, features) in VARIANTS {
            let (ok, out, err) = cargo(features, true, true).unwrap_or_else(|e| (false, String::new(), e));
            if !ok {
                let shown: Vec<&str> = out.lines().filter(|l| l.contains("\"level\":\"error\"")).collect();
                eprintln!("the {name} dictionary crates cannot be compiled:\n{}\n{err}", shown.join("\n"));
                cleanup_scratch();
                std::process::exit(2);
            }
            let mut v = vec![];
            for l in out.lines() {
                let Ok(m) = serde_json::from_str::<Value>(l) else { continue };
                if m["reason"] == "build-script-executed" {
                    let id = m["package_id"].as_str().unwrap_or("").to_string();
                    for k in KINDS {
                        if id.contains(&format!("/lindera-{}#", k.name())) {
                            v.push((k, PathBuf::from(m["out_dir"].as_str().unwrap())));
                        }
                    }
                }
            }
            if v.len() != KINDS.len() {
                eprintln!("the {name} build ran other build scripts: {v:?}");
                cleanup_scratch();
                std::process::exit(2);
            }
            all.push(v);
        }
        all
    })
}

fn write_tarball(out: &Path, k: Kind, spec: &DictSpec) {
    let f = std::fs::File::create(out.join(format!("{}.tar.gz", tarball(k)))).unwrap();
    let mut ar = tar::Builder::new(flate2::write::GzEncoder::new(f, flate2::Compression::fast()));
    for (n, c) in spec.source_files() {
        let data = spec.encode(&c);
        let mut h = tar::Header::new_gnu();
        h.set_size(data.len() as u64);
        h.set_mode(0o644);
        h.set_cksum();
        ar.append_data(&mut h, format!("{}/{n}", tarball(k)), &data[..]).unwrap();
    }
    ar.into_inner().unwrap().finish().unwrap();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EmbCase {
    /// one for each kind, in the order of KINDS
    dicts: Vec<TokCase>,
}

/// Everything about one kind that does not depend on the variant.
struct Side {
    job: Value,
    args: Vec<String>,
    input: String,
    want: String,
}

fn side(sc: &Scratch, c: &TokCase) -> Result<Side, String> {
    let kind = c.dict.kind;
    let dir = sc.path().join(kind.name());
    let out = dir.join("out");
    c.dict.build_to(&dir.join("src"), &out).map_err(|e| format!("building a valid dictionary failed: {e:?}"))?;
    let ext = DictionaryLoader::load_dictionary(out.clone()).map_err(|e| format!("loading: {e:?}"))?;
    let mut args = vec!["tokenize".to_string(), "-t".into(), kind.name().into()];
    let mut user = None;
    if !c.user.is_empty() {
        let p = dir.join("user.csv");
        std::fs::write(&p, user_csv(&c.user)).unwrap();
        args.extend(["-u".to_string(), p.display().to_string()]);
        user = Some(p);
    }
    let surfaces: Vec<&String> = c.dict.rows.iter().map(|r| &r.surface).collect();
    let job = json!({"kind": kind.name(), "dir": out, "user": user, "mode": c.mode.real(), "texts": c.texts, "surfaces": surfaces,
        "fwd": c.dict.fwd, "bwd": c.dict.bwd});
    // the program, with a filter that depends on the kind
    let u = match user {
        Some(p) => Some(DictionaryLoader::load_user_dictionary_from_csv(kind.lindera(), p).map_err(|e| format!("user dictionary: {e:?}"))?),
        None => None,
    };
    let filter = TF::BaseForm(kind.name().to_string());
    args.extend(["-T".to_string(), format!("{}:{}", filter.kind(), filter.args())]);
    let a = AnaCase { dict: None, user: vec![], mode: ModeSpec::Normal, filters: vec![], token_filters: vec![filter], texts: vec![], route: 0 };
    let ana = hand(&a, Tokenizer::new(ext, u, ModeSpec::Normal.real()), false)?;
    let input: String = c.texts.iter().map(|t| format!("{t}\n")).collect();
    let mut want = vec![];
    for l in lines(&input) {
        want.push(library(&ana, l)?.ok_or("analysis fails")?);
    }
    Ok(Side { job, args, input, want: mecab(&want) })
}

fn check_embedded(c: &EmbCase, o: &mut Obs) -> CheckResult {
    let outs = prepare();
    let sc = Scratch::new();
    let sides = c.dicts.iter().map(|d| side(&sc, d)).collect::<Result<Vec<_>, String>>()?;
    let jobs = sc.path().join("jobs.json");
    std::fs::write(&jobs, json!(sides.iter().map(|s| &s.job).collect::<Vec<_>>()).to_string()).unwrap();
    for (v, (variant, features)) in VARIANTS.iter().enumerate() {
        for (k, out) in &outs[v] {
            std::fs::create_dir_all(out).unwrap();
            clear(out);
            let d = c.dicts.iter().find(|d| d.dict.kind == *k).ok_or("a kind is missing")?;
            write_tarball(out, *k, &d.dict);
        }
        forget();
        let (ok, _, err) = cargo(features, false, false)?;
        if !ok {
            if err.contains("Transport(") || err.contains("could not compile") {
                eprintln!("the {variant} dictionaries cannot be built here:\n{err}");
                cleanup_scratch();
                std::process::exit(2);
            }
            let tail: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).rev().take(12).collect();
            return Err(format!("building the {variant} dictionaries into the library failed: {}", tail.into_iter().rev().collect::<Vec<_>>().join(" / ")));
        }
        let bin = target().join("debug");
        let r = run_program(&bin.join("embed"), &[jobs.display().to_string()], None, sc.path())?;
        let text = String::from_utf8_lossy(&r.out).into_owned();
        if r.code != Some(0) {
            return Err(format!("{variant}: using the embedded dictionaries crashed: {text} {}", r.err));
        }
        if let Some(l) = text.lines().find(|l| l.starts_with("difference")) {
            return Err(format!("{variant}: {l}"));
        }
        let n: Vec<u64> = text.lines().last().unwrap_or("").split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
        if n.len() != 2 {
            return Err(format!("{variant}: no answer: {text}"));
        }
        o.steps += n[0];
        o.nontrivial |= n[1] > 5;
        // the program
        let list = run_program(&bin.join("lindera"), &["list".to_string()], None, sc.path())?;
        let mut got: Vec<String> = String::from_utf8_lossy(&list.out).lines().map(|s| s.to_string()).collect();
        got.sort();
        let mut want: Vec<&str> = KINDS.iter().map(|k| k.name()).collect();
        want.sort();
        if got != want || list.code != Some(0) {
            return Err(format!("{variant}: list prints {got:?}"));
        }
        for s in &sides {
            let r = run_program(&bin.join("lindera"), &s.args, Some(s.input.as_bytes()), sc.path())?;
            let got = String::from_utf8_lossy(&r.out);
            if r.code != Some(0) || got != s.want {
                return Err(format!("{variant}: lindera {:?} on {:?} prints {got:?} instead of {:?} (status {:?}) {}", s.args, s.input, s.want, r.code, r.err));
            }
        }
        o.label(variant);
    }
    Ok(())
}

fn emb_case() -> BoxedStrategy<EmbCase> {
    let one = |k: Kind| {
        prop_oneof![
            2 => tok_case_of(Just(k).boxed(), mode(), 60, 12, DictSize { rows: 24, user: 6, matrix: 4, alpha: 6 }),
            2 => tok_case_of(Just(k).boxed(), mode(), 60, 12, DictSize { rows: 150, user: 20, matrix: 12, alpha: 20 }),
        ]
        .boxed()
    };
    let all: Vec<BoxedStrategy<TokCase>> = KINDS.iter().map(|k| one(*k)).collect();
    all.prop_map(|dicts| EmbCase { dicts }).boxed()
}

pub fn p13() -> Property {
    let mut s = suite_sharded("embedded", "more than five texts have two or more tokens", 30, 1500, 1, emb_case, check_embedded);
    let run = s.run;
    s.run = Box::new(move |ctx| {
        prepare();
        run(ctx)
    });
    let replay = s.replay;
    s.replay = Box::new(move |v| {
        prepare();
        replay(v)
    });
    Property {
        id: "P13",
        suites: vec![s],
        known: vec![],
        assumptions: vec![
            "the sources come from the tarball the build script would have downloaded; the download itself is not exercised",
            "the directory side is built by the library's builder without the compress feature (P06-P09 check it)",
        ],
    }
}
