//! Compares the dictionaries compiled into the library with dictionaries loaded from directories.
//! usage: embed JOB.json; prints one line per difference, and "done STEPS NONTRIVIAL".
use lindera::{Analyzer, AnalyzerConfig, DictionaryConfig, DictionaryKind, DictionaryLoader, Mode, Tokenizer, TokenizerConfig, UserDictionaryConfig};
use lindera_core::character_definition::CategoryId;
use lindera_core::dictionary::Dictionary;
use serde::Deserialize;
use serde_json::json;
use std::path::PathBuf;
use std::str::FromStr;

#[derive(Deserialize)]
struct Job {
    kind: String,
    dir: PathBuf,
    user: Option<PathBuf>,
    mode: Mode,
    texts: Vec<String>,
    surfaces: Vec<String>,
    fwd: u32,
    bwd: u32,
}

fn parts(e: &Dictionary, x: &Dictionary, j: &Job, steps: &mut u64) -> Result<(), String> {
    // lexicon and details
    for s in j.surfaces.iter().chain(&j.texts) {
        for (i, _) in s.char_indices() {
            let a: Vec<_> = e.dict.prefix(&s[i..]).collect();
            let b: Vec<_> = x.dict.prefix(&s[i..]).collect();
            *steps += 1;
            if a != b {
                return Err(format!("entries of {:?}: {a:?} instead of {b:?}", &s[i..]));
            }
            for (_, w) in a {
                let (d, g) = (e.word_details(w.word_id.0 as usize), x.word_details(w.word_id.0 as usize));
                if d != g {
                    return Err(format!("details of {w:?}: {d:?} instead of {g:?}"));
                }
            }
        }
    }
    // categories
    for c in (0..0x10FFFFu32).filter_map(char::from_u32).filter(|c| (*c as u32) < 0x11000 || (*c as u32) % 997 == 0) {
        let (a, b) = (e.char_definitions.lookup_categories(c), x.char_definitions.lookup_categories(c));
        if a != b {
            return Err(format!("categories of {c:?}: {a:?} instead of {b:?}"));
        }
    }
    let (a, b) = (e.char_definitions.categories(), x.char_definitions.categories());
    if a != b {
        return Err(format!("categories {a:?} instead of {b:?}"));
    }
    for i in 0..a.len() {
        let f = |d: &Dictionary| format!("{:?}", d.char_definitions.lookup_definition(CategoryId(i)));
        if f(e) != f(x) {
            return Err(format!("category {i}: {} instead of {}", f(e), f(x)));
        }
        // unknown words
        let f = |d: &Dictionary| {
            let ids = d.unknown_dictionary.lookup_word_ids(CategoryId(i));
            ids.iter().map(|w| d.unknown_dictionary.word_entry(*w)).collect::<Vec<_>>()
        };
        *steps += 2;
        if f(e) != f(x) {
            return Err(format!("unknown words of category {i}: {:?} instead of {:?}", f(e), f(x)));
        }
    }
    // connection costs
    for f in 0..j.fwd {
        for b in 0..j.bwd {
            *steps += 1;
            let (k, l) = (e.cost_matrix.cost(f, b), x.cost_matrix.cost(f, b));
            if k != l {
                return Err(format!("cost of {f} {b}: {k} instead of {l}"));
            }
        }
    }
    Ok(())
}

type Tok = (String, usize, usize, usize, usize, (u32, bool), Option<Vec<String>>);

fn tokens(t: &Tokenizer, text: &str) -> Result<Vec<Tok>, String> {
    let v = t.tokenize(text).map_err(|e| format!("tokenize({text:?}): {e:?}"))?;
    Ok(v.into_iter()
        .map(|mut k| {
            let d = k.get_details().map(|d| d.into_iter().map(|s| s.to_string()).collect());
            (k.text.to_string(), k.byte_start, k.byte_end, k.position, k.position_length, (k.word_id.0, k.word_id.1), d)
        })
        .collect())
}

fn user(j: &Job) -> Option<UserDictionaryConfig> {
    let kind = DictionaryKind::from_str(&j.kind).unwrap();
    j.user.clone().map(|path| UserDictionaryConfig { kind: Some(kind), path })
}

fn compare(j: &Job, steps: &mut u64, many: &mut u64) -> Result<(), String> {
    let kind = DictionaryKind::from_str(&j.kind).map_err(|e| format!("{e:?}"))?;
    if kind.as_str() != j.kind {
        return Err(format!("the kind {} is named {}", j.kind, kind.as_str()));
    }
    let ext = DictionaryLoader::load_dictionary(j.dir.clone()).map_err(|e| format!("loading {:?}: {e:?}", j.dir))?;
    let emb = DictionaryLoader::load_dictionary_from_kind(kind.clone()).map_err(|e| format!("loading the embedded dictionary: {e:?}"))?;
    parts(&emb, &ext, j, steps)?;
    let want = {
        let u = match user(j) {
            Some(u) => Some(DictionaryLoader::load_user_dictionary_from_config(u).map_err(|e| format!("user dictionary: {e:?}"))?),
            None => None,
        };
        Tokenizer::new(ext, u, j.mode.clone())
    };
    let dc = DictionaryConfig { kind: Some(kind.clone()), path: None };
    let direct = Tokenizer::from_config(TokenizerConfig { dictionary: dc, user_dictionary: user(j), mode: j.mode.clone() })
        .map_err(|e| format!("tokenizer from its configuration: {e:?}"))?;
    let mut t = json!({"dictionary": {"kind": j.kind}, "mode": j.mode});
    if let Some(u) = &j.user {
        t["user_dictionary"] = json!({"kind": j.kind, "path": u});
    }
    let conf = AnalyzerConfig::from_slice(json!({"tokenizer": t}).to_string().as_bytes()).map_err(|e| format!("analyzer configuration: {e:?}"))?;
    let ana = Analyzer::from_config(&conf).map_err(|e| format!("analyzer from its configuration: {e:?}"))?;
    for text in &j.texts {
        let w = tokens(&want, text)?;
        let d = tokens(&direct, text)?;
        *steps += 1;
        if w.len() > 1 {
            *many += 1;
        }
        if d != w {
            return Err(format!("{text:?} gives {d:?} instead of {w:?}"));
        }
        let a: Vec<_> = ana
            .analyze(text)
            .map_err(|e| format!("analyze({text:?}): {e:?}"))?
            .into_iter()
            .map(|t| (t.text, t.byte_start, t.byte_end, (t.word_id.0, t.word_id.1), Some(t.details)))
            .collect();
        let w: Vec<_> = w.into_iter().map(|t| (t.0, t.1, t.2, t.5, t.6)).collect();
        if a != w {
            return Err(format!("analyzing {text:?} gives {a:?} instead of {w:?}"));
        }
    }
    Ok(())
}

fn main() {
    let path = std::env::args().nth(1).expect("job file");
    let jobs: Vec<Job> = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let kinds: Vec<String> = DictionaryKind::contained_variants().iter().map(|k| k.as_str().to_string()).collect();
    let mut all = jobs.iter().map(|j| j.kind.clone()).collect::<Vec<_>>();
    let mut k = kinds.clone();
    all.sort();
    k.sort();
    if k != all {
        println!("difference: the contained kinds are {kinds:?}");
    }
    let (mut steps, mut many) = (0, 0);
    for j in &jobs {
        if let Err(m) = compare(j, &mut steps, &mut many) {
            println!("difference: {}: {m}", j.kind);
        }
    }
    println!("done {steps} {many}");
}
