//! P25: configurations.
use crate::chars::{filter_alphabet, raw_any, RawCF, CF};
use crate::dicts::*;
use crate::gen::*;
use crate::runner::*;
use crate::toks::{self, T, TF};
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryConfig, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use lindera_filter::character_filter as cf;
use lindera_filter::token_filter as tf;
use lindera_filter::character_filter::CharacterFilterLoader;
use lindera_filter::token_filter::TokenFilterLoader;
use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::str::FromStr;

// ---------------------------------------------------------------------------- tokenizer configs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TcCase {
    kind: Option<u8>,
    path: Option<String>,
    user: Option<(String, Option<u8>)>,
    mode: ModeSpec,
    omit: u8,
    mutation: u8,
    pick: u16,
    other: String,
}

fn kind_of(i: u8) -> DictionaryKind {
    DictionaryKind::variants()[i as usize % 5].clone()
}

fn roundtrip<C: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(c: &C) -> CheckResult {
    let text = serde_json::to_string(c).map_err(|e| format!("writing {c:?}: {e}"))?;
    let pretty = serde_json::to_string_pretty(c).unwrap();
    let value = serde_json::to_value(c).unwrap();
    for (how, r) in [
        ("text", serde_json::from_str::<C>(&text)),
        ("bytes", serde_json::from_slice::<C>(pretty.as_bytes())),
        ("value", serde_json::from_value::<C>(value)),
        ("reader", serde_json::from_reader::<_, C>(text.as_bytes())),
    ] {
        match r {
            Ok(d) if d == *c => {}
            Ok(d) => return Err(format!("{c:?} is written as {text} and read back as {d:?} (from {how})")),
            Err(e) => return Err(format!("{c:?} is written as {text}, which is rejected (from {how}): {e}")),
        }
    }
    Ok(())
}

fn object(fields: &[(String, Value)]) -> String {
    let f: Vec<String> = fields.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    format!("{{{}}}", f.join(","))
}

fn check_tokenizer_config(c: &TcCase, o: &mut Obs) -> CheckResult {
    let cfg = TokenizerConfig {
        dictionary: DictionaryConfig { kind: c.kind.map(kind_of), path: c.path.as_ref().map(PathBuf::from) },
        user_dictionary: c.user.as_ref().map(|(p, k)| UserDictionaryConfig { path: PathBuf::from(p), kind: k.map(kind_of) }),
        mode: c.mode.real(),
    };
    roundtrip(&cfg)?;
    roundtrip(&cfg.dictionary)?;
    roundtrip(&cfg.mode)?;
    if let Some(u) = &cfg.user_dictionary {
        roundtrip(u)?;
    }
    if let Mode::Decompose(p) = &cfg.mode {
        roundtrip(p)?;
    }
    o.steps += 5;
    // a hand-written configuration, optional fields omitted
    let penalty = |m: &ModeSpec| match m {
        ModeSpec::Normal => json!("normal"),
        ModeSpec::Decompose { kt, kp, ot, op } => json!({"decompose": {
            "kanji_penalty_length_threshold": kt, "kanji_penalty_length_penalty": kp,
            "other_penalty_length_threshold": ot, "other_penalty_length_penalty": op}}),
    };
    let mut dict = json!({});
    if let Some(k) = c.kind {
        dict["kind"] = json!(KINDS[k as usize % 5].name());
    } else if c.omit & 1 != 0 {
        dict["kind"] = Value::Null;
    }
    if let Some(p) = &c.path {
        dict["path"] = json!(p);
    } else if c.omit & 2 != 0 {
        dict["path"] = Value::Null;
    }
    let mut fields = vec![("dictionary".to_string(), dict)];
    if let Some((p, k)) = &c.user {
        let mut u = json!({"path": p});
        if let Some(k) = k {
            u["kind"] = json!(KINDS[*k as usize % 5].name());
        }
        fields.push(("user_dictionary".into(), u));
    } else if c.omit & 4 != 0 {
        fields.push(("user_dictionary".into(), Value::Null));
    }
    if c.mode != ModeSpec::Normal || c.omit & 8 != 0 {
        fields.push(("mode".into(), penalty(&c.mode)));
    }
    let n = fields.len();
    fields.rotate_left(c.omit as usize / 16 % n);
    let text = object(&fields);
    match serde_json::from_str::<TokenizerConfig>(&text) {
        Ok(d) if d == cfg => {}
        Ok(d) => return Err(format!("{text} is read as {d:?} instead of {cfg:?}")),
        Err(e) => return Err(format!("{text} is rejected: {e}")),
    }
    // one mutation that makes it invalid
    let at = c.pick as usize;
    let pos = |f: &[(String, Value)], k: &str| f.iter().position(|x| x.0 == k);
    let mut bad = fields.clone();
    let wrong: &[Value] = &[json!(1), json!(true), json!("x"), json!(-0.5)];
    let what = match c.mutation {
        0 => {
            bad.remove(pos(&bad, "dictionary").unwrap());
            "no dictionary"
        }
        1 => {
            let d = bad[at % n].clone();
            bad.insert(at / 8 % (n + 1), d);
            "duplicated field"
        }
        2 => {
            if ["dictionary", "user_dictionary", "mode"].contains(&c.other.as_str()) {
                return Ok(());
            }
            bad.insert(at % (n + 1), (c.other.clone(), json!(1)));
            "unknown field"
        }
        3 => {
            bad[pos(&fields, "dictionary").unwrap()].1 = [wrong, &[Value::Null]].concat()[at % 5].clone();
            "dictionary of wrong type"
        }
        4 => {
            bad.retain(|x| x.0 != "user_dictionary");
            bad.push(("user_dictionary".into(), [wrong, &[json!({}), json!({"kind": "ipadic"}), json!({"path": 1}), json!({"path": "a", "kind": "nope"})]].concat()[at % 8].clone()));
            "invalid user dictionary"
        }
        5 => {
            bad.retain(|x| x.0 != "mode");
            let modes = [
                json!(1), json!(null), json!(true), json!("Normal"), json!("decompose"), json!({"decompose": {}}), json!({"decompose": null}),
                json!({"search": {}}), json!(""), json!("normal "), json!({}),
                json!({"decompose": {"kanji_penalty_length_threshold": -1, "kanji_penalty_length_penalty": 1, "other_penalty_length_threshold": 1, "other_penalty_length_penalty": 1}}),
                json!({"decompose": {"kanji_penalty_length_threshold": 1, "kanji_penalty_length_penalty": 3000000000u32, "other_penalty_length_threshold": 1, "other_penalty_length_penalty": 1}}),
                json!({"decompose": {"kanji_penalty_length_threshold": 1, "kanji_penalty_length_penalty": 1, "other_penalty_length_threshold": 1}}),
                json!({"decompose": {"kanji_penalty_length_threshold": "1", "kanji_penalty_length_penalty": 1, "other_penalty_length_threshold": 1, "other_penalty_length_penalty": 1}}),
            ];
            bad.push(("mode".into(), modes[at % modes.len()].clone()));
            "invalid mode"
        }
        6 => {
            if KINDS.iter().any(|k| k.name() == c.other) {
                return Ok(());
            }
            bad[pos(&fields, "dictionary").unwrap()].1["kind"] = json!(c.other);
            "unknown kind"
        }
        _ => {
            let mut cut = at % text.len();
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            let t = if c.mutation == 7 { text[..cut].to_string() } else { format!("{text}{}", ["}", "x", "{}", ","][at % 4]) };
            if let Ok(d) = serde_json::from_str::<TokenizerConfig>(&t) {
                return Err(format!("malformed {t} is read as {d:?}"));
            }
            o.label("malformed");
            o.nontrivial = true;
            return Ok(());
        }
    };
    let text = object(&bad);
    if let Ok(d) = serde_json::from_str::<TokenizerConfig>(&text) {
        return Err(format!("{text} ({what}) is read as {d:?}"));
    }
    o.label(what);
    o.nontrivial = true;
    Ok(())
}

fn any_path() -> BoxedStrategy<String> {
    prop_oneof![2 => any_text(6), 1 => select(&["/nonexistent/dict", "user.csv", "a/b.bin", "", "C:\\x", "日本語.csv"][..]).prop_map(String::from)].boxed()
}

fn tc_case() -> BoxedStrategy<TcCase> {
    let pen = prop_oneof![any::<i32>(), -5i32..5];
    let m = prop_oneof![
        1 => Just(ModeSpec::Normal),
        2 => (prop_oneof![0usize..9, any::<usize>()], pen.clone(), prop_oneof![0usize..9, any::<usize>()], pen)
            .prop_map(|(kt, kp, ot, op)| ModeSpec::Decompose { kt, kp, ot, op }),
    ];
    (
        proptest::option::of(0u8..5),
        proptest::option::of(any_path()),
        proptest::option::of((any_path(), proptest::option::of(0u8..5))),
        m,
        any::<u8>(),
        0u8..9,
        any::<u16>(),
        near_name(),
    )
        .prop_map(|(kind, path, user, mode, omit, mutation, pick, other)| TcCase { kind, path, user, mode, omit, mutation, pick, other })
        .boxed()
}

// --------------------------------------------------------------------------------------- names

const NAMES: &[&str] = &[
    "ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict", "normal", "decompose", "dictionary", "user_dictionary", "mode", "kind", "path", "search",
    "with_details", "IPADIC", "ipadic_neologd", "kodic",
];

fn near_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(NAMES).prop_map(String::from),
        2 => (select(NAMES), any::<u8>(), any_char(), 0u8..3).prop_map(|(n, i, c, how)| {
            let mut v: Vec<char> = n.chars().collect();
            let i = i as usize % v.len();
            match how {
                0 => { v.remove(i); }
                1 => v.insert(i, c),
                _ => v[i] = v[i].to_ascii_uppercase(),
            }
            v.into_iter().collect()
        }),
        1 => any_text(5),
    ]
    .boxed()
}

fn check_names(s: &String, o: &mut Obs) -> CheckResult {
    let want = DictionaryKind::variants().into_iter().find(|k| k.as_str() == s);
    let got = catch(|| DictionaryKind::from_str(s)).map_err(|p| format!("kind {s:?} {p}"))?.ok();
    if want != got {
        return Err(format!("dictionary kind {s:?} parses to {got:?} instead of {want:?}"));
    }
    let js = serde_json::from_value::<DictionaryKind>(json!(s)).ok();
    if want != js {
        return Err(format!("dictionary kind {s:?} in JSON is {js:?} instead of {want:?}"));
    }
    let mode = catch(|| Mode::from_str(s)).map_err(|p| format!("mode {s:?} {p}"))?.ok();
    let want_mode = match s.as_str() {
        "normal" => Some(Mode::Normal),
        "decompose" => Some(Mode::Decompose(Penalty {
            kanji_penalty_length_threshold: 2,
            kanji_penalty_length_penalty: 3000,
            other_penalty_length_threshold: 7,
            other_penalty_length_penalty: 1700,
        })),
        _ => None,
    };
    if mode != want_mode {
        return Err(format!("mode {s:?} parses to {mode:?} instead of {want_mode:?}"));
    }
    let names: Vec<String> = DictionaryKind::variants().iter().map(|k| k.as_str().to_string()).collect();
    if names != KINDS.iter().map(|k| k.name().to_string()).collect::<Vec<_>>() {
        return Err(format!("dictionary kinds are called {names:?}"));
    }
    for k in KINDS {
        if k.lindera().as_str() != k.name() {
            return Err(format!("{k:?} is called {:?}", k.lindera().as_str()));
        }
        // only kinds compiled in can be loaded
        let contained = DictionaryKind::contained_variants().contains(&k.lindera());
        let loads = catch(|| DictionaryLoader::load_dictionary_from_kind(k.lindera()).is_ok()).map_err(|p| format!("loading {k:?} {p}"))?;
        if contained != loads {
            return Err(format!("{k:?}: contained {contained}, loads {loads}"));
        }
    }
    // a file that is not there, or has no known extension, is an error
    for kind in [None, Some(DictionaryKind::IPADIC)] {
        let u = UserDictionaryConfig { path: PathBuf::from(format!("/nonexistent/{}", s.replace('\0', ""))), kind };
        if catch(|| DictionaryLoader::load_user_dictionary_from_config(u)).map_err(|p| format!("user dictionary {s:?} {p}"))?.is_ok() {
            return Err(format!("a user dictionary that does not exist was loaded: {s:?}"));
        }
    }
    // the default configuration names no dictionary, so it cannot be used as it is
    let d = TokenizerConfig::default();
    if d.mode != Mode::Normal || d.user_dictionary.is_some() || d.dictionary.kind.is_some() || d.dictionary.path.is_some() {
        return Err(format!("the default configuration is {d:?}"));
    }
    if serde_json::to_string(&d).ok().and_then(|t| serde_json::from_str::<TokenizerConfig>(&t).ok()).as_ref() != Some(&d) {
        return Err("the default configuration does not survive JSON".into());
    }
    if catch(|| Tokenizer::from_config(d).is_ok()).map_err(|p| format!("default configuration {p}"))? {
        return Err("a tokenizer without a dictionary was made".into());
    }
    o.nontrivial = want.is_some() || want_mode.is_some() || NAMES.contains(&s.as_str());
    Ok(())
}

// ------------------------------------------------------------------------------------- filters

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum F {
    C(CF),
    T(TF),
}

impl F {
    fn kind(&self) -> &'static str {
        match self {
            F::C(c) => c.kind(),
            F::T(t) => t.kind(),
        }
    }
    fn args(&self) -> Value {
        match self {
            F::C(c) => c.args(),
            F::T(t) => t.args(),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    Str,
    Kind,
    Form,
    Kana,
    Bool,
    Set,
    Map,
    Uint,
    NonZero,
}

/// (field, type, required)
fn fields(kind: &str, character: bool) -> &'static [(&'static str, Ty, bool)] {
    match kind {
        "mapping" => &[("mapping", Ty::Map, true)],
        "regex" => &[("pattern", Ty::Str, true), ("replacement", Ty::Str, true)],
        "unicode_normalize" => &[("kind", Ty::Form, true)],
        "japanese_iteration_mark" => &[("normalize_kanji", Ty::Bool, true), ("normalize_kana", Ty::Bool, true)],
        _ if character => unreachable!(),
        "japanese_base_form" | "japanese_reading_form" => &[("kind", Ty::Kind, true)],
        "japanese_kana" => &[("kind", Ty::Kana, true)],
        "japanese_katakana_stem" => &[("min", Ty::NonZero, false)],
        "japanese_keep_tags" | "japanese_stop_tags" | "korean_keep_tags" | "korean_stop_tags" => &[("tags", Ty::Set, true)],
        "keep_words" | "stop_words" => &[("words", Ty::Set, true)],
        "length" => &[("min", Ty::Uint, false), ("max", Ty::Uint, false)],
        "japanese_compound_word" => &[("kind", Ty::Kind, true), ("tags", Ty::Set, true), ("new_tag", Ty::Str, false)],
        "japanese_number" => &[("tags", Ty::Set, false)],
        _ => &[],
    }
}

fn wrong_values(t: Ty) -> Vec<Value> {
    let scalars = vec![json!(7), json!(true), json!("x"), json!(null), json!(-1), json!(1.5), json!({"a": 1}), json!([1])];
    let only = |f: &dyn Fn(&Value) -> bool| scalars.iter().filter(|v| !f(v)).cloned().collect::<Vec<_>>();
    match t {
        Ty::Str => only(&|v| v.is_string()),
        Ty::Bool => only(&|v| v.is_boolean()),
        Ty::Uint => only(&|v| *v == json!(7)),
        Ty::NonZero => [only(&|v| *v == json!(7)), vec![json!(0)]].concat(),
        Ty::Set => [only(&|_| false), vec![json!(["a", 1]), json!([null]), json!([["a"]])]].concat(),
        Ty::Map => [only(&|_| false), vec![json!({"a": null}), json!({"a": "b", "c": ["d"]})]].concat(),
        Ty::Kind => [only(&|_| false), vec![json!("IPADIC"), json!("")]].concat(),
        Ty::Form => [only(&|_| false), vec![json!("NFKC"), json!("nf")]].concat(),
        Ty::Kana => [only(&|_| false), vec![json!("Hiragana"), json!("")]].concat(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FcCase {
    filter: F,
    mutation: u8,
    pick: u16,
    value: u16,
    other: String,
}

/// Load by the value route and the flag route; both must agree.
fn load(character: bool, kind: &str, args: &Value) -> Result<Result<String, String>, String> {
    let flag = format!("{kind}:{args}");
    let ctx = |p: String| format!("filter {flag} {p}");
    let (a, b) = if character {
        (
            catch(|| CharacterFilterLoader::load_from_value(kind, args).map(|f| f.name().to_string())).map_err(ctx)?,
            catch(|| CharacterFilterLoader::load_from_cli_flag(&flag).map(|f| f.name().to_string())).map_err(ctx)?,
        )
    } else {
        (
            catch(|| TokenFilterLoader::load_from_value(kind, args).map(|f| f.name().to_string())).map_err(ctx)?,
            catch(|| TokenFilterLoader::load_from_cli_flag(&flag).map(|f| f.name().to_string())).map_err(ctx)?,
        )
    };
    let (a, b) = (a.map_err(|e| format!("{e:?}")), b.map_err(|e| format!("{e:?}")));
    if a.is_ok() != b.is_ok() && !kind.contains(':') {
        return Err(format!("filter {flag}: as value {a:?}, as flag {b:?}"));
    }
    Ok(a)
}

macro_rules! config_roundtrip {
    ($args:expr, $cfg:ty) => {{
        let args: &Value = $args;
        let bytes = serde_json::to_vec(args).unwrap();
        let a = <$cfg>::from_value(args).map_err(|e| format!("config {args}: {e:?}"))?;
        let b = <$cfg>::from_slice(&bytes).map_err(|e| format!("config {args} as text: {e:?}"))?;
        if a != b {
            return Err(format!("config {args} is {a:?} as value and {b:?} as text"));
        }
        let back = serde_json::to_value(&a).map_err(|e| format!("writing {a:?}: {e}"))?;
        let c = <$cfg>::from_value(&back).map_err(|e| format!("config {a:?} is written as {back}, which is rejected: {e:?}"))?;
        let d = <$cfg>::from_slice(back.to_string().as_bytes()).map_err(|e| format!("config {a:?} is written as {back}, which is rejected: {e:?}"))?;
        if a != c || a != d {
            return Err(format!("config {a:?} is written as {back} and read back as {c:?}, {d:?}"));
        }
    }};
}

fn check_filter_config(c: &FcCase, o: &mut Obs) -> CheckResult {
    let (kind, args, character) = (c.filter.kind(), c.filter.args(), matches!(c.filter, F::C(_)));
    o.label(kind);
    match load(character, kind, &args)? {
        Ok(name) if name == kind => {}
        Ok(name) => return Err(format!("filter {kind} {args} is called {name}")),
        Err(e) => return Err(format!("valid filter {kind} {args} is rejected: {e}")),
    }
    let a = &args;
    match (&c.filter, kind) {
        (F::C(_), "mapping") => config_roundtrip!(a, cf::mapping::MappingCharacterFilterConfig),
        (F::C(_), "regex") => config_roundtrip!(a, cf::regex::RegexCharacterFilterConfig),
        (F::C(_), "unicode_normalize") => config_roundtrip!(a, cf::unicode_normalize::UnicodeNormalizeCharacterFilterConfig),
        (F::C(_), _) => config_roundtrip!(a, cf::japanese_iteration_mark::JapaneseIterationMarkCharacterFilterConfig),
        (_, "mapping") => config_roundtrip!(a, tf::mapping::MappingTokenFilterConfig),
        (_, "japanese_base_form") => config_roundtrip!(a, tf::japanese_base_form::JapaneseBaseFormTokenFilterConfig),
        (_, "japanese_reading_form") => config_roundtrip!(a, tf::japanese_reading_form::JapaneseReadingFormTokenFilterConfig),
        (_, "japanese_kana") => config_roundtrip!(a, tf::japanese_kana::JapaneseKanaTokenFilterConfig),
        (_, "japanese_katakana_stem") => {
            config_roundtrip!(a, tf::japanese_katakana_stem::JapaneseKatakanaStemTokenFilterConfig)
        }
        (_, "japanese_keep_tags") => config_roundtrip!(a, tf::japanese_keep_tags::JapaneseKeepTagsTokenFilterConfig),
        (_, "japanese_stop_tags") => config_roundtrip!(a, tf::japanese_stop_tags::JapaneseStopTagsTokenFilterConfig),
        (_, "korean_keep_tags") => config_roundtrip!(a, tf::korean_keep_tags::KoreanKeepTagsTokenFilterConfig),
        (_, "korean_stop_tags") => config_roundtrip!(a, tf::korean_stop_tags::KoreanStopTagsTokenFilterConfig),
        (_, "keep_words") => config_roundtrip!(a, tf::keep_words::KeepWordsTokenFilterConfig),
        (_, "stop_words") => config_roundtrip!(a, tf::stop_words::StopWordsTokenFilterConfig),
        (_, "length") => config_roundtrip!(a, tf::length::LengthTokenFilterConfig),
        (_, "japanese_compound_word") => config_roundtrip!(a, tf::japanese_compound_word::JapaneseCompoundWordTokenFilterConfig),
        (_, "japanese_number") => config_roundtrip!(a, tf::japanese_number::JapaneseNumberTokenFilterConfig),
        _ => {}
    }
    // the other spellings of the same configuration
    let flag = format!("{kind}:{args}");
    let fs = fields(kind, character);
    let mut bad = args.clone();
    let at = c.pick as usize;
    let what = match c.mutation {
        0 => {
            let req: Vec<_> = fs.iter().filter(|f| f.2).collect();
            if req.is_empty() {
                return Ok(());
            }
            bad.as_object_mut().unwrap().remove(req[at % req.len()].0);
            "missing field"
        }
        1 | 2 | 3 => {
            if fs.is_empty() {
                return Ok(());
            }
            let f = fs[at % fs.len()];
            let mut w = wrong_values(f.1);
            if !f.2 && f.1 != Ty::NonZero {
                w.retain(|v| !v.is_null());
            }
            bad[f.0] = w[c.value as usize % w.len()].clone();
            "wrong type"
        }
        4 => {
            if !fs.iter().any(|f| f.2) {
                return Ok(());
            }
            bad = [json!(null), json!(1), json!("x"), json!(false)][at % 4].clone();
            "arguments of wrong type"
        }
        5 => {
            // an unknown filter
            let known = ["mapping", "regex", "unicode_normalize", "japanese_iteration_mark"];
            let name = c.other.split(':').next().unwrap().to_string();
            if known.contains(&name.as_str()) || ALL_TOKEN_FILTERS.contains(&name.as_str()) {
                return Ok(());
            }
            for ch in [true, false] {
                if load(ch, &name, &args)?.is_ok() {
                    return Err(format!("unknown filter {name:?} is accepted"));
                }
            }
            // character filters are no token filters and the other way round
            if kind != "mapping" && load(!character, kind, &args)?.is_ok() {
                return Err(format!("filter {kind} is accepted as the other sort of filter"));
            }
            o.label("unknown filter");
            o.nontrivial = true;
            return Ok(());
        }
        _ => {
            // a malformed flag: cut somewhere in its arguments
            let body = args.to_string();
            let mut cut = at % body.len();
            while !body.is_char_boundary(cut) {
                cut -= 1;
            }
            let t = match c.mutation {
                6 => format!("{kind}:{}", &body[..cut]),
                7 => format!("{flag}{}", ["}", "x", "{}", ","][at % 4]),
                _ => kind.to_string(),
            };
            let ok = if character {
                catch(|| CharacterFilterLoader::load_from_cli_flag(&t).is_ok())
            } else {
                catch(|| TokenFilterLoader::load_from_cli_flag(&t).is_ok())
            }
            .map_err(|p| format!("flag {t:?} {p}"))?;
            if ok {
                return Err(format!("malformed flag {t:?} is accepted"));
            }
            o.label("malformed flag");
            o.nontrivial = true;
            return Ok(());
        }
    };
    o.label(what);
    o.nontrivial = true;
    if load(character, kind, &bad)?.is_ok() {
        return Err(format!("filter {kind} with {what} is accepted: {bad}"));
    }
    Ok(())
}

const ALL_TOKEN_FILTERS: &[&str] = &[
    "japanese_base_form", "japanese_compound_word", "japanese_kana", "japanese_katakana_stem", "japanese_keep_tags", "japanese_number",
    "japanese_reading_form", "japanese_stop_tags", "keep_words", "korean_keep_tags", "korean_reading_form", "korean_stop_tags", "length", "lowercase",
    "mapping", "stop_words", "uppercase",
];
const ALL_CHAR_FILTERS: &[&str] = &["mapping", "regex", "unicode_normalize", "japanese_iteration_mark"];

fn any_filter() -> BoxedStrategy<F> {
    prop_oneof![
        2 => (filter_alphabet(), raw_any()).prop_map(|(a, r): (Vec<char>, RawCF)| F::C(r.concrete(&a))),
        2 => toks::select_case().prop_map(|c| F::T(c.filter)),
        2 => toks::rewrite_filter().prop_map(F::T),
        1 => toks::compound_case().prop_map(|c| F::T(c.filter)),
        1 => proptest::option::of(proptest::collection::btree_set(toks::tag_level(), 0..4usize)).prop_map(|t| F::T(TF::Number(t))),
    ]
    .boxed()
}

fn fc_case() -> BoxedStrategy<FcCase> {
    (any_filter(), 0u8..9, any::<u16>(), any::<u16>(), prop_oneof![any_text(4), (select(ALL_TOKEN_FILTERS), any_text(1)).prop_map(|(a, b)| format!("{a}{b}")), near_name()])
        .prop_map(|(filter, mutation, pick, value, other)| FcCase { filter, mutation, pick, value, other })
        .boxed()
}

// ------------------------------------------------------------------------------------- any JSON

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JsonCase {
    name: String,
    value: Value,
    flag: String,
    text: String,
}

fn any_json() -> BoxedStrategy<Value> {
    let keys = select(&["kind", "args", "tags", "words", "min", "max", "mapping", "pattern", "replacement", "new_tag", "normalize_kanji", "normalize_kana", "path", "mode", "dictionary", "tokenizer", "character_filters", "token_filters", "user_dictionary", "x"][..]);
    let strings = prop_oneof![
        2 => select(&["ipadic", "unidic", "nfkc", "hiragana", "katakana", "mapping", "normal", "(", "a*", "", "名詞,一般", ",,,,,", "0"][..]).prop_map(String::from),
        1 => any_text(4),
    ];
    let leaf = prop_oneof![
        4 => strings.clone().prop_map(Value::from),
        2 => any::<i64>().prop_map(Value::from),
        2 => (0u64..6).prop_map(Value::from),
        1 => Just(json!(u64::MAX)),
        1 => any::<f64>().prop_map(Value::from),
        1 => any::<bool>().prop_map(Value::from),
        1 => Just(Value::Null),
    ];
    leaf.prop_recursive(3, 24, 5, move |inner| {
        prop_oneof![
            2 => vec(inner.clone(), 0..=4usize).prop_map(Value::from),
            3 => btree_map(prop_oneof![5 => keys.clone().prop_map(String::from), 1 => any_text(2)], inner, 0..=5usize).prop_map(|m| Value::Object(m.into_iter().collect())),
        ]
    })
    .boxed()
}

fn json_case() -> BoxedStrategy<JsonCase> {
    let name = prop_oneof![8 => select(ALL_TOKEN_FILTERS).prop_map(String::from), 3 => select(ALL_CHAR_FILTERS).prop_map(String::from), 1 => any_text(3)];
    // arguments close to what the filters want
    let near = (vec(select(&["kind", "tags", "words", "min", "max", "mapping", "pattern", "replacement", "new_tag", "normalize_kanji", "normalize_kana"][..]), 1..=4usize), vec(any_json(), 4), vec(toks::word_text(), 4), 0u8..8)
        .prop_map(|(ks, js, ws, how)| {
            let mut v = json!({});
            for (i, k) in ks.iter().enumerate() {
                v[*k] = match (how.wrapping_add(i as u8) % 6, *k) {
                    (0, _) => js[i].clone(),
                    (_, "tags" | "words") => json!(ws),
                    (_, "mapping") => json!({ws[0].clone(): ws[1].clone(), ws[2].clone(): ws[3].clone()}),
                    (_, "min" | "max") => [json!(0), json!(1), json!(u64::MAX), json!(usize::MAX / 2)][how as usize % 4].clone(),
                    (_, "kind") => [json!("ipadic"), json!("unidic"), json!("nfkd"), json!("hiragana"), json!("cc-cedict")][how as usize % 5].clone(),
                    (_, "pattern") => json!(ws[how as usize % 4]),
                    (_, k) if k.starts_with("norm") => json!(how % 2 == 0),
                    _ => json!(ws[i]),
                };
            }
            v
        });
    (name, prop_oneof![1 => any_json(), 2 => near], prop_oneof![any_text(6), any_text(4).prop_map(|s| format!("mapping:{s}")), any_text(4).prop_map(|s| format!("length:{{{s}}}"))], any_text(6))
        .prop_map(|(name, value, flag, text)| JsonCase { name, value, flag, text })
        .boxed()
}

fn check_json(c: &JsonCase, o: &mut Obs) -> CheckResult {
    let mut loaded = 0;
    let ctx = |p: String| format!("filter {:?} with {} {p}", c.name, c.value);
    if let Ok(f) = catch(|| CharacterFilterLoader::load_from_value(&c.name, &c.value)).map_err(ctx)? {
        loaded += 1;
        catch(|| f.apply(&c.text).is_ok()).map_err(|p| format!("{} on {:?}", ctx(p), c.text))?;
    }
    if let Ok(f) = catch(|| TokenFilterLoader::load_from_value(&c.name, &c.value)).map_err(ctx)? {
        loaded += 1;
        let tok = |details: &[&str]| T { text: c.text.clone(), start: 0, end: c.text.len(), pos: 0, len: 1, id: (0, true), details: details.iter().map(|s| s.to_string()).collect() }.real();
        let mut v = vec![tok(&["UNK"]), tok(&["名詞", "一般", "*", "*", "*", "*", "a"]), tok(&["名詞"])];
        catch(|| f.apply(&mut v).is_ok()).map_err(|p| format!("{} on {:?}", ctx(p), c.text))?;
    }
    load(true, &c.name, &c.value)?;
    load(false, &c.name, &c.value)?;
    catch(|| (CharacterFilterLoader::load_from_cli_flag(&c.flag).is_ok(), TokenFilterLoader::load_from_cli_flag(&c.flag).is_ok())).map_err(|p| format!("flag {:?} {p}", c.flag))?;
    for v in [
        c.value.clone(),
        json!({"tokenizer": c.value}),
        json!({"character_filters": [{"kind": c.name, "args": c.value}], "tokenizer": {"dictionary": {"path": "/nonexistent"}}, "token_filters": [c.value]}),
        json!({"character_filters": c.value, "tokenizer": {"dictionary": c.value}, "token_filters": c.value}),
        json!({"tokenizer": {"dictionary": {"path": "/nonexistent"}, "mode": c.value, "user_dictionary": c.value}}),
    ] {
        let text = v.to_string();
        let cfg = catch(|| AnalyzerConfig::from_slice(text.as_bytes())).map_err(|p| format!("analyzer config {text} {p}"))?;
        if let Ok(cfg) = cfg {
            if catch(|| Analyzer::from_config(&cfg).is_ok()).map_err(|p| format!("analyzer config {text} {p}"))? {
                return Err(format!("analyzer config {text} without a dictionary is accepted"));
            }
        }
        catch(|| serde_json::from_str::<TokenizerConfig>(&text).is_ok()).map_err(|p| format!("tokenizer config {text} {p}"))?;
        if let Ok(t) = serde_json::from_str::<TokenizerConfig>(&text) {
            if catch(|| Tokenizer::from_config(t).is_ok()).map_err(|p| format!("tokenizer config {text} {p}"))? {
                return Err(format!("tokenizer config {text} without a dictionary is accepted"));
            }
        }
        o.steps += 1;
    }
    o.label_if(loaded > 0, "accepted");
    // regular expressions are valid exactly if the regex crate says so
    let p = &c.text;
    let ok = CharacterFilterLoader::load_from_value("regex", &json!({"pattern": p, "replacement": ""})).is_ok();
    if ok != regex::Regex::new(p).is_ok() {
        return Err(format!("regex filter with pattern {p:?}: accepted {ok}"));
    }
    o.nontrivial = loaded > 0 || c.value.is_object();
    Ok(())
}

// ----------------------------------------------------------------------------------- analyzers

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AcCase {
    filters: Vec<F>,
    mutation: u8,
    pick: u16,
    other: String,
}

fn dict_dir() -> &'static PathBuf {
    static D: std::sync::OnceLock<(Scratch, PathBuf)> = std::sync::OnceLock::new();
    &D.get_or_init(|| {
        let sc = Scratch::new();
        let spec = DictSpec {
            kind: Kind::Unidic,
            cats: vec![Cat { name: "DEFAULT".into(), invoke: true, group: false, length: 1 }],
            ranges: vec![],
            unk: vec![(0, 0, 0, 0)],
            fwd: 1,
            bwd: 1,
            costs: vec![(0, 0, 0)],
            rows: vec![Row { surface: "龍".into(), left: 0, right: 0, cost: 0, details: vec!["名詞".into()] }],
            files: 1,
        };
        let out = sc.path().join("out");
        spec.build_to(&sc.path().join("src"), &out).expect("build");
        (sc, out)
    })
    .1
}

fn check_analyzer_config(c: &AcCase, o: &mut Obs) -> CheckResult {
    let entry = |f: &F| json!({"kind": f.kind(), "args": f.args()});
    let mut cfs: Vec<Value> = c.filters.iter().filter(|f| matches!(f, F::C(_))).map(entry).collect();
    let mut tfs: Vec<Value> = c.filters.iter().filter(|f| matches!(f, F::T(_))).map(entry).collect();
    let mut tok = json!({"dictionary": {"path": dict_dir()}});
    let whole = |c: &[Value], t: &[Value], k: &Value| json!({"character_filters": c, "tokenizer": k, "token_filters": t});
    let accept = |text: &str| -> Result<bool, String> {
        let r = catch(|| AnalyzerConfig::from_slice(text.as_bytes()).and_then(|c| Analyzer::from_config(&c))).map_err(|p| format!("analyzer config {text} {p}"))?;
        match r {
            Ok(a) => {
                let names: Vec<String> = a.character_filters.iter().map(|f| f.name().to_string()).chain(a.token_filters.iter().map(|f| f.name().to_string())).collect();
                let want: Vec<&str> = c.filters.iter().filter(|f| matches!(f, F::C(_))).chain(c.filters.iter().filter(|f| matches!(f, F::T(_)))).map(|f| f.kind()).collect();
                if names != want {
                    return Err(format!("analyzer config {text} is accepted with the filters {names:?}"));
                }
                Ok(true)
            }
            Err(_) => Ok(false),
        }
    };
    let good = whole(&cfs, &tfs, &tok).to_string();
    if !accept(&good)? {
        return Err(format!("valid analyzer config {good} is rejected"));
    }
    let at = c.pick as usize;
    let junk = [json!(1), json!("x"), json!(true), json!({"kind": "lowercase"}), json!(0.5)];
    let lists = [json!(null), json!(1), json!("lowercase"), json!({}), json!({"args": {}}), json!({"kind": 1, "args": {}}), json!({"kind": null}), json!({"kind": ["mapping"], "args": {"mapping": {}}}), json!([]), json!(["lowercase", {}])];
    let mut text = None;
    let what = match c.mutation {
        0 => {
            let list = if at % 2 == 0 { &mut cfs } else { &mut tfs };
            let i = at / 32 % (list.len() + 1);
            list.insert(i, lists[at / 2 % lists.len()].clone());
            "filter without kind"
        }
        1 => {
            let list = if at % 2 == 0 { &mut cfs } else { &mut tfs };
            let i = at / 32 % (list.len() + 1);
            if ALL_CHAR_FILTERS.contains(&c.other.as_str()) || ALL_TOKEN_FILTERS.contains(&c.other.as_str()) {
                return Ok(());
            }
            list.insert(i, json!({"kind": c.other, "args": {}}));
            "unknown filter"
        }
        2 => {
            let mut v = whole(&cfs, &tfs, &tok);
            v[["character_filters", "token_filters"][at % 2]] = junk[at / 2 % junk.len()].clone();
            text = Some(v.to_string());
            "filters not in a list"
        }
        3 => {
            let mut v = whole(&cfs, &tfs, &tok);
            v.as_object_mut().unwrap().remove("tokenizer");
            text = Some(v.to_string());
            "no tokenizer"
        }
        4 => {
            tok = [json!(null), json!(1), json!("x"), json!([]), json!({})][at % 5].clone();
            "invalid tokenizer"
        }
        5 => {
            match at % 8 {
                0 => tok["dictionary"] = json!({}),
                1 => tok["dictionary"] = json!({"path": "/nonexistent/dictionary"}),
                2 => tok["dictionary"] = json!({"kind": c.other.clone() + "!"}),
                3 => tok["mode"] = json!("search"),
                4 => tok["user_dictionary"] = json!({"path": "/nonexistent/user.csv", "kind": "ipadic"}),
                5 => tok["user_dictionary"] = json!({"path": "/nonexistent/user.csv"}),
                6 => tok["user_dictionary"] = json!({"path": dict_dir().join("dict.da")}),
                _ => tok["unknown_field"] = json!(1),
            }
            "invalid tokenizer field"
        }
        6 => {
            let mut cut = at % good.len();
            while !good.is_char_boundary(cut) {
                cut -= 1;
            }
            text = Some(good[..cut].to_string());
            "malformed"
        }
        _ => {
            // a filter with invalid arguments among the valid ones
            let bads = [
                (true, json!({"kind": "regex", "args": {"pattern": "(", "replacement": ""}})),
                (true, json!({"kind": "regex", "args": {"pattern": "a"}})),
                (true, json!({"kind": "regex"})),
                (true, json!({"kind": "mapping", "args": {}})),
                (true, json!({"kind": "unicode_normalize", "args": {"kind": "nfx"}})),
                (true, json!({"kind": "lowercase", "args": {}})),
                (false, json!({"kind": "japanese_keep_tags", "args": {"tags": "名詞"}})),
                (false, json!({"kind": "japanese_stop_tags", "args": {}})),
                (false, json!({"kind": "japanese_number", "args": {"tags": "名詞"}})),
                (false, json!({"kind": "length", "args": {"min": -1}})),
                (false, json!({"kind": "keep_words"})),
                (false, json!({"kind": "japanese_compound_word", "args": {"kind": "ipadic"}})),
                (false, json!({"kind": "regex", "args": {"pattern": "a", "replacement": ""}})),
            ];
            let (ch, b) = &bads[at % bads.len()];
            let list = if *ch { &mut cfs } else { &mut tfs };
            let i = at / 32 % (list.len() + 1);
            list.insert(i, b.clone());
            "invalid filter arguments"
        }
    };
    let text = text.unwrap_or_else(|| whole(&cfs, &tfs, &tok).to_string());
    if accept(&text)? {
        return Err(format!("analyzer config with {what} is accepted: {text}"));
    }
    o.label(what);
    o.nontrivial = true;
    Ok(())
}

pub fn p25() -> Property {
    Property {
        id: "P25",
        suites: vec![
            suite("tokenizer", "an invalid variant is tried as well", 120_000, 5_000_000, tc_case, check_tokenizer_config),
            suite("names", "a known name", 30_000, 1_000_000, near_name, check_names),
            suite("filters", "an invalid variant is tried as well", 120_000, 5_000_000, fc_case, check_filter_config),
            suite("any json", "the value is an object or accepted", 60_000, 3_000_000, json_case, check_json),
            suite(
                "analyzer",
                "an invalid variant is tried as well",
                40_000,
                1_500_000,
                || {
                    (vec(any_filter(), 0..=4usize), 0u8..8, any::<u16>(), prop_oneof![near_name(), any_text(3)])
                        .prop_map(|(filters, mutation, pick, other)| AcCase { filters, mutation, pick, other })
                        .boxed()
                },
                check_analyzer_config,
            ),
        ],
        known: vec![],
        assumptions: vec!["paths are valid UTF-8", "which patterns are valid is decided by the regex crate"],
    }
}
