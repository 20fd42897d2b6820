//! P19, P20: the analyzer.
use crate::chars::{self, filter_alphabet, raw_any, word, RawCF, CF};
use crate::dicts::*;
use crate::gen::*;
use crate::runner::*;
use crate::toks::{self, TF, T};
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnaCase {
    /// None: a dictionary that makes one token of every character
    pub dict: Option<DictSpec>,
    pub user: Vec<URow>,
    pub mode: ModeSpec,
    pub filters: Vec<CF>,
    pub token_filters: Vec<TF>,
    pub texts: Vec<String>,
    pub route: u8,
}

/// The input positions one position of the filtered text may stand for, through a chain of filters.
fn origin(outs: &[chars::Out], p: usize) -> Vec<(usize, usize)> {
    let mut set = vec![(p, p)];
    for o in outs.iter().rev() {
        let mut next: Vec<(usize, usize)> = vec![];
        for (lo, hi) in set {
            if lo == hi {
                let b = o.boundaries(lo);
                if b.is_empty() {
                    next.push(o.range(lo));
                } else {
                    next.extend(b.into_iter().map(|x| (x, x)));
                }
            } else {
                next.push((o.range(lo).0, o.range(hi).1));
            }
        }
        next.sort();
        next.dedup();
        set = next;
    }
    set
}

/// Where a token that starts at a boundary of every filter must start: behind text deleted there.
fn start_of(outs: &[chars::Out], p: usize) -> Option<usize> {
    outs.iter().rev().try_fold(p, |p, o| o.boundaries(p).into_iter().max())
}

fn within(set: &[(usize, usize)], p: usize) -> bool {
    set.iter().any(|(a, b)| *a <= p && p <= *b)
}

struct Chain {
    filtered: String,
    outs: Vec<chars::Out>,
}

fn chain(filters: &[CF], text: &str) -> Chain {
    let mut filtered = text.to_string();
    let mut outs = vec![];
    for f in filters {
        let o = chars::model(f, &filtered);
        filtered = o.text.clone();
        outs.push(o);
    }
    Chain { filtered, outs }
}

fn load_chars(filters: &[CF]) -> Result<Vec<BoxCharacterFilter>, String> {
    filters.iter().map(|f| f.load()).collect()
}

pub(super) fn char_spec() -> DictSpec {
    DictSpec {
        kind: Kind::Unidic,
        cats: vec![Cat { name: "DEFAULT".into(), invoke: true, group: false, length: 1 }],
        ranges: vec![],
        unk: vec![(0, 0, 0, 0)],
        fwd: 1,
        bwd: 1,
        costs: vec![(0, 0, 0)],
        rows: vec![Row { surface: "龍".into(), left: 0, right: 0, cost: 0, details: vec!["名詞".into(), "一般".into()] }],
        files: 1,
    }
}

fn char_tokenizer() -> Result<Tokenizer, String> {
    static T: std::sync::OnceLock<Result<Tokenizer, String>> = std::sync::OnceLock::new();
    T.get_or_init(|| char_spec().tokenizer(&[], &ModeSpec::Normal)).clone()
}

fn tokenizer(c: &AnaCase) -> Result<Tokenizer, String> {
    match &c.dict {
        None => char_tokenizer(),
        Some(d) => d.tokenizer(&c.user, &c.mode),
    }
}

fn as_t(k: Tok) -> T {
    T { text: k.text, start: k.start, end: k.end, pos: k.position, len: k.position_length, id: k.word_id, details: k.details.unwrap_or_default() }
}

fn analyze(a: &Analyzer, text: &str) -> Result<Vec<T>, String> {
    let v = catch(|| a.analyze(text)).map_err(|p| format!("analyze({text:?}) {p}"))?.map_err(|e| format!("analyze({text:?}): {e:?}"))?;
    Ok(v.iter().map(T::of).collect())
}

// ------------------------------------------------------------------------------------------ P19

fn check_offsets(c: &AnaCase, o: &mut Obs) -> CheckResult {
    let tok = tokenizer(c)?;
    let ana = Analyzer::new(load_chars(&c.filters)?, tok.clone(), vec![]);
    for text in &c.texts {
        let ch = chain(&c.filters, text);
        let raw = tokenize(&tok, &ch.filtered)?;
        let got = analyze(&ana, text)?;
        if got.len() != raw.len() {
            return Err(format!("{:?} on {text:?}: {} tokens, but {} on the filtered text {:?}", c.filters, got.len(), raw.len(), ch.filtered));
        }
        let mut prev = 0;
        for (g, r) in got.iter().zip(&raw) {
            let fail = |what: String| {
                Err(format!("{:?} on {text:?} (filtered {:?}): token {:?} {what}", c.filters, ch.filtered, g.text))
            };
            if g.text != r.text {
                return fail(format!("instead of {:?}", r.text));
            }
            if g.end > text.len() || g.start > g.end {
                return fail(format!("has byte range {}..{} in a text of {} bytes", g.start, g.end, text.len()));
            }
            if g.start < prev {
                return fail(format!("starts at {} before the previous one at {prev}", g.start));
            }
            prev = g.start;
            for (what, got, raw) in [("start", g.start, r.start), ("end", g.end, r.end)] {
                let want = origin(&ch.outs, raw);
                if !within(&want, got) {
                    return fail(format!("has {what} {got}, but filtered position {raw} stands for {want:?}"));
                }
            }
            if let Some(want) = start_of(&ch.outs, r.start) {
                if g.start != want {
                    return fail(format!("has start {}, but filtered position {} stands for {want}", g.start, r.start));
                }
                o.label_if(origin(&ch.outs, r.start).len() > 1, "starts after deleted text");
            }
            if c.filters.is_empty() && (g.start, g.end) != (r.start, r.end) {
                return fail("has other offsets than the tokenizer gives".into());
            }
        }
        let moved = got.iter().zip(&raw).any(|(g, r)| g.start != r.start || g.end != r.end);
        o.nontrivial |= moved;
        let changing = ch.outs.iter().filter(|o| o.pieces.iter().any(|p| p.o1 - p.o0 != p.i1 - p.i0)).count();
        o.label_if(changing >= 2, "two filters change lengths");
        o.label_if(changing >= 3, "three filters change lengths");
        o.steps += got.len() as u64;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ P20

pub(super) fn cli<X>(kind: &str, args: &serde_json::Value, f: impl Fn(&str) -> Result<X, String>) -> Result<X, String> {
    f(&format!("{kind}:{args}"))
}

pub(super) fn hand(c: &AnaCase, tok: Tokenizer, flags: bool) -> Result<Analyzer, String> {
    let cf = if flags {
        c.filters
            .iter()
            .map(|f| cli(f.kind(), &f.args(), |s| CharacterFilterLoader::load_from_cli_flag(s).map_err(|e| format!("flag {s:?}: {e:?}"))))
            .collect::<Result<Vec<BoxCharacterFilter>, String>>()?
    } else {
        load_chars(&c.filters)?
    };
    let tf = if flags {
        c.token_filters
            .iter()
            .map(|f| cli(f.kind(), &f.args(), |s| TokenFilterLoader::load_from_cli_flag(s).map_err(|e| format!("flag {s:?}: {e:?}"))))
            .collect::<Result<Vec<BoxTokenFilter>, String>>()?
    } else {
        c.token_filters.iter().map(|f| f.load()).collect::<Result<Vec<_>, String>>()?
    };
    Ok(Analyzer::new(cf, tok, tf))
}

type Wanted = Vec<(Vec<T>, Chain)>;

/// What the stages give one after the other for each text.
fn wanted(c: &AnaCase, tok: &Tokenizer, texts: &[String], o: &mut Obs) -> Result<Wanted, String> {
    let number = TF::Number(None).load()?;
    let mut want = vec![];
    for text in texts {
        let ch = chain(&c.filters, text);
        let mut ts: Vec<T> = tokenize(tok, &ch.filtered)?.into_iter().map(as_t).collect();
        for f in &c.token_filters {
            let before = ts.clone();
            ts = match f {
                // numbers are judged by P24
                TF::Number(w) => ts
                    .into_iter()
                    .map(|t| if w.as_ref().map_or(true, |w| toks::tagged(&t, w)) { Ok(toks::apply(f, &number, &[t])?.remove(0)) } else { Ok(t) })
                    .collect::<Result<_, String>>()?,
                _ => toks::model(f, &ts),
            };
            o.nontrivial |= before != ts;
        }
        want.push((ts, ch));
    }
    Ok(want)
}

fn same_as(c: &AnaCase, text: &str, (ts, ch): &(Vec<T>, Chain), got: &[T], how: &str) -> CheckResult {
    let ctx = || format!("{how}, filters {:?} {:?}, on {text:?}", c.filters, c.token_filters);
    if got.len() != ts.len() {
        return Err(format!("{}: {} tokens instead of {}", ctx(), got.len(), ts.len()));
    }
    for (g, w) in got.iter().zip(ts) {
        let same = T { start: g.start, end: g.end, ..w.clone() } == *g;
        if !same {
            return Err(format!("{}: token {g:?} instead of {w:?}", ctx()));
        }
        if !within(&origin(&ch.outs, w.start), g.start) || !within(&origin(&ch.outs, w.end), g.end) {
            return Err(format!("{}: token {g:?} should be at {w:?} of the filtered text {:?}", ctx(), ch.filtered));
        }
    }
    Ok(())
}

/// Several analyzers used in turn in one thread, and then all at once from several threads.
fn check_side_by_side(c: &SideCase, o: &mut Obs) -> CheckResult {
    let cs = c.cases();
    let texts: Vec<String> = {
        let mut t: Vec<String> = cs.iter().flat_map(|c| c.texts.iter().cloned()).collect();
        t.sort();
        t.dedup();
        t
    };
    let mut side = vec![];
    for a in &cs {
        let tok = tokenizer(a)?;
        side.push((wanted(a, &tok, &texts, o)?, hand(a, tok, a.route & 1 != 0)?));
    }
    o.nontrivial = (0..texts.len()).any(|i| side.iter().any(|s| s.0[i].0 != side[0].0[i].0));
    // the same text to one analyzer after the other, then the texts in another order
    let order: Vec<(usize, usize)> = match c.order % 3 {
        0 => (0..texts.len()).flat_map(|i| (0..side.len()).map(move |a| (a, i))).collect(),
        1 => (0..texts.len()).rev().flat_map(|i| (0..side.len()).rev().map(move |a| (a, i))).collect(),
        _ => (0..side.len()).flat_map(|a| (0..texts.len()).map(move |i| (a, i))).collect(),
    };
    for (a, i) in &order {
        same_as(&cs[*a], &texts[*i], &side[*a].0[*i], &analyze(&side[*a].1, &texts[*i])?, "beside other analyzers")?;
        o.steps += 1;
    }
    if c.order & 4 == 0 {
        return Ok(());
    }
    o.label("threads");
    let rs: Vec<CheckResult> = std::thread::scope(|sc| {
        let (cs, side, texts, order) = (&cs, &side, &texts, &order);
        let hs: Vec<_> = (0..3usize)
            .map(|k| {
                sc.spawn(move || {
                    for n in 0..2 * order.len() {
                        let (a, i) = order[(n * (k + 1) + k) % order.len()];
                        same_as(&cs[a], &texts[i], &side[a].0[i], &analyze(&side[a].1, &texts[i])?, "beside other threads")?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
    });
    o.steps += 6 * order.len() as u64;
    rs.into_iter().collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct SideCase {
    a: AnaCase,
    b: AnaCase,
    order: u8,
}

impl SideCase {
    /// The first, the first with its filters the other way round, the filters of the one with the
    /// dictionary of the other, and the other.
    fn cases(&self) -> Vec<AnaCase> {
        let mut r = self.a.clone();
        r.filters.reverse();
        r.token_filters.reverse();
        let mut x = self.a.clone();
        if self.order & 8 != 0 {
            x.filters = self.b.filters.clone();
            x.token_filters = self.b.token_filters.clone();
        } else {
            (x.dict, x.user, x.mode) = (self.b.dict.clone(), self.b.user.clone(), self.b.mode.clone());
        }
        vec![self.a.clone(), r, x, self.b.clone()]
    }
}

fn side_case() -> BoxedStrategy<SideCase> {
    (compose_case(), compose_case(), any::<u8>()).prop_map(|(a, b, order)| SideCase { a, b, order }).boxed()
}

fn check_compose(c: &AnaCase, o: &mut Obs) -> CheckResult {
    let spec = c.dict.clone().unwrap_or_else(char_spec);
    let user = if c.dict.is_some() { &c.user[..] } else { &[] };
    let mode = if c.dict.is_some() { c.mode.clone() } else { ModeSpec::Normal };
    let tok = tokenizer(c)?;
    let want = wanted(c, &tok, &c.texts, o)?;
    let compare = |i: usize, got: &[T], how: &str| same_as(c, &c.texts[i], &want[i], got, how);
    // the analyzers: from JSON, from a file, assembled, from flags; each also cloned
    let sc = Scratch::new();
    let from_config = |file: bool| -> Result<Analyzer, String> {
        let (src, out) = (sc.path().join("src"), sc.path().join("out"));
        if !out.exists() {
            spec.build_to(&src, &out).map_err(|e| format!("build: {e:?}"))?;
        }
        let mut t = json!({"dictionary": {"path": out}, "mode": mode.real()});
        if mode == ModeSpec::Normal && c.route % 3 == 0 {
            t.as_object_mut().unwrap().remove("mode");
        }
        if !user.is_empty() {
            let p = sc.path().join("user.csv");
            std::fs::write(&p, user_csv(user)).unwrap();
            t["user_dictionary"] = json!({"path": p, "kind": spec.kind.name()});
        }
        let fs = |v: Vec<(&str, serde_json::Value)>| -> Vec<serde_json::Value> { v.into_iter().map(|(k, a)| json!({"kind": k, "args": a})).collect() };
        let mut cfg = json!({"tokenizer": t});
        if !c.filters.is_empty() || c.route % 2 == 0 {
            cfg["character_filters"] = json!(fs(c.filters.iter().map(|f| (f.kind(), f.args())).collect()));
        }
        if !c.token_filters.is_empty() || c.route % 2 == 0 {
            cfg["token_filters"] = json!(fs(c.token_filters.iter().map(|f| (f.kind(), f.args())).collect()));
        }
        let bytes = serde_json::to_vec(&cfg).unwrap();
        let conf = if file {
            let p = sc.path().join("analyzer.json");
            std::fs::write(&p, &bytes).unwrap();
            AnalyzerConfig::from_file(&p)
        } else {
            AnalyzerConfig::from_slice(&bytes)
        }
        .map_err(|e| format!("config {cfg}: {e:?}"))?;
        catch(|| Analyzer::from_config(&conf)).map_err(|p| format!("config {cfg} {p}"))?.map_err(|e| format!("config {cfg}: {e:?}"))
    };
    let (how, ana) = match c.route % 4 {
        0 => ("from JSON", from_config(false)?),
        1 => ("from a file", from_config(true)?),
        2 => ("assembled", hand(c, tok.clone(), false)?),
        _ => ("from flags", hand(c, tok.clone(), true)?),
    };
    o.label(how);
    let copy = if c.route & 16 != 0 { Some(ana.clone()) } else { None };
    for (i, t) in c.texts.iter().enumerate() {
        compare(i, &analyze(&ana, t)?, how)?;
        o.steps += 1;
    }
    let copy = copy.unwrap_or_else(|| ana.clone());
    if c.route & 32 != 0 {
        drop(ana);
        for (i, t) in c.texts.iter().enumerate().rev() {
            compare(i, &analyze(&copy, t)?, "clone")?;
        }
    } else {
        for (i, t) in c.texts.iter().enumerate().rev() {
            compare(i, &analyze(&copy, t)?, "clone")?;
            compare(i, &analyze(&ana, t)?, "used before")?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ generators

type RawText = Vec<(u16, u8, u16)>;

fn raw_text(n: usize) -> BoxedStrategy<RawText> {
    vec((any::<u16>(), 0u8..24, any::<u16>()), 0..=n).boxed()
}

fn pick<X: Clone>(v: &[X], i: u16) -> Option<X> {
    v.get((i as usize * v.len()) >> 16).cloned()
}

/// A text over the alphabet with words and mapping keys in it.
fn show(t: &RawText, alpha: &[char], words: &[String], filters: &[CF]) -> String {
    let mut s = String::new();
    for (i, what, j) in t {
        match what {
            0..=5 => {
                let keys: Vec<String> = filters.iter().filter_map(|f| if let CF::Mapping(m) = f { Some(m) } else { None }).flat_map(|m| m.keys().cloned()).collect();
                match pick(&keys, *j) {
                    Some(k) => s.push_str(&k),
                    None => s.push_str(&word(alpha, &[*i])),
                }
            }
            6..=12 => match pick(words, *j) {
                Some(w) => s.push_str(&w),
                None => s.push_str(&word(alpha, &[*i])),
            },
            13 => s.push(pick(POOL, *j).unwrap()),
            14 if j % 2 == 0 => s.push(DELIMS[*j as usize / 2 % DELIMS.len()]),
            15 if j % 4 == 0 => s.push('\0'),
            _ => s.push_str(&word(alpha, &[*i])),
        }
    }
    s
}

fn char_case(min: usize) -> BoxedStrategy<AnaCase> {
    (filter_alphabet(), vec(raw_any(), min..=4), vec(raw_text(12), 1..=3usize))
        .prop_map(|(alpha, raw, texts)| {
            let filters: Vec<CF> = raw.iter().map(|r: &RawCF| r.concrete(&alpha)).collect();
            let texts = texts.iter().map(|t| show(t, &alpha, &[], &filters)).collect();
            AnaCase { dict: None, user: vec![], mode: ModeSpec::Normal, filters, token_filters: vec![], texts, route: 0 }
        })
        .boxed()
}

/// Long texts, and chains of up to eight filters.
pub(super) fn large_ana_case() -> BoxedStrategy<AnaCase> {
    (prop_oneof![char_case(1), dict_ana_case(), compose_case()], chars::growth(), filter_alphabet(), vec(raw_any(), 0..=4usize))
        .prop_map(|(mut c, g, alpha, more)| {
            c.filters.extend(more.iter().map(|r| r.concrete(&alpha)));
            if let Some(d) = &mut c.dict {
                // see P04: groups of thousands of characters take a time that grows with their square
                d.cats.iter_mut().for_each(|c| c.group = false);
            }
            // the models of these take a time that grows with the square of the text
            let slow = c.filters.iter().filter(|f| matches!(f, CF::Norm(_) | CF::Regex(..))).count();
            c.texts.truncate(2);
            for t in &mut c.texts {
                *t = if slow > 1 { g.grow(t, 200, 500) } else if slow > 0 { g.grow(t, 600, 1_200) } else { g.grow(t, 3_000, 45_000) };
                let cap = [usize::MAX, 500, 200, 60][slow.min(3)];
                if t.chars().count() > cap {
                    *t = t.chars().take(cap).collect();
                }
            }
            c
        })
        .boxed()
}

fn dict_ana_case() -> BoxedStrategy<AnaCase> {
    (dict_case(DictSize { rows: 12, user: 3, matrix: 2, alpha: 6 }), mode(), vec(raw_any(), 0..=4usize), vec(raw_text(12), 1..=3usize))
        .prop_map(|((dict, user, alpha), mode, raw, texts)| {
            let filters: Vec<CF> = raw.iter().map(|r: &RawCF| r.concrete(&alpha)).collect();
            let words: Vec<String> = dict.rows.iter().map(|r| r.surface.clone()).chain(user.iter().map(|u| u.surface().to_string())).collect();
            let texts = texts.iter().map(|t| show(t, &alpha, &words, &filters)).collect();
            AnaCase { dict: Some(dict), user, mode, filters, token_filters: vec![], texts, route: 0 }
        })
        .boxed()
}

type RawTf = (u8, Vec<(u16, u8, Vec<String>)>, Vec<u16>, TF, (String, Option<Vec<String>>, Option<u8>, Option<u8>));

fn raw_tf() -> BoxedStrategy<RawTf> {
    (
        0u8..14,
        toks::picks(),
        vec(any::<u16>(), 0..=4usize),
        toks::rewrite_filter(),
        (toks::dic_kind(), proptest::option::of(vec(toks::tag_level(), 1..=5usize)), any::<Option<u8>>(), any::<Option<u8>>()),
    )
        .boxed()
}

/// Make a token filter fit the words of a dictionary.
fn fit(r: &RawTf, like: &[T], alpha: &[char]) -> TF {
    let (which, picks, idx, rewrite, (kind, new_tag, a, b)) = r;
    let words = || idx.iter().filter_map(|i| pick(like, *i)).map(|t| t.text).chain(idx.first().map(|i| word(alpha, &[*i]))).collect();
    let heads = || idx.iter().filter_map(|i| pick(like, *i)).map(|t| t.details[0].clone()).collect();
    match which {
        0 => TF::KeepTags(toks::tags_for(like, picks)),
        1 => TF::StopTags(toks::tags_for(like, picks)),
        2 => TF::KeepWords(words()),
        3 => TF::StopWords(words()),
        4 => TF::KoreanKeep(heads()),
        5 => TF::KoreanStop(heads()),
        6 => TF::Length(a.map(|x| x as usize % 3), b.map(|x| x as usize % 5)),
        7 | 8 => TF::Compound(kind.clone(), toks::tags_for(like, picks), new_tag.as_ref().map(|v| v.join(","))),
        9 => TF::Number(if a.is_some() { Some(toks::tags_for(like, picks)) } else { None }),
        10 => TF::Mapping(
            idx.iter().filter_map(|i| pick(like, *i)).map(|t| (t.text.chars().filter(|c| *c != '\0').take(2).collect::<String>(), word(alpha, idx))).filter(|x| !x.0.is_empty()).collect(),
        ),
        _ => rewrite.clone(),
    }
}

pub(super) fn compose_case() -> BoxedStrategy<AnaCase> {
    let cf = proptest::strategy::Union::new_weighted(vec![(2, vec(raw_any(), 0..=1usize).boxed()), (3, vec(raw_any(), 0..=3usize).boxed())]);
    (
        proptest::option::weighted(0.75, dict_case(DictSize { rows: 12, user: 3, matrix: 2, alpha: 6 })),
        filter_alphabet(),
        mode(),
        cf,
        vec(raw_tf(), 0..=4usize),
        vec(raw_text(10), 1..=3usize),
        any::<u8>(),
    )
        .prop_map(|(dict, alpha, mode, raw, tf, texts, route)| {
            let (dict, user, alpha) = match dict {
                Some((d, u, a)) => (Some(d), u, a),
                None => (None, vec![], alpha),
            };
            let filters: Vec<CF> = raw.iter().map(|r: &RawCF| r.concrete(&alpha)).collect();
            let mk = |text: &str, details: Vec<String>| T { text: text.into(), start: 0, end: 0, pos: 0, len: 1, id: (0, true), details };
            let mut like = vec![mk(&word(&alpha, &[0]), vec!["UNK".into()])];
            if let Some(d) = &dict {
                like.extend(d.rows.iter().map(|r| mk(&r.surface, r.details.clone())));
                like.extend(user.iter().map(|u| mk(u.surface(), u.meaning(d.kind).3)));
            }
            let words: Vec<String> = like.iter().map(|t| t.text.clone()).collect();
            let token_filters = tf.iter().map(|r| fit(r, &like, &alpha)).collect();
            let mut texts: Vec<String> = texts.iter().map(|t| show(t, &alpha, &words, &filters)).collect();
            if route & 64 != 0 {
                texts.push(texts[0].clone());
            }
            AnaCase { dict, user, mode, filters, token_filters, texts, route }
        })
        .boxed()
}

pub fn p19() -> Property {
    Property {
        id: "P19",
        suites: vec![
            suite("characters", "some offset is corrected", 120_000, 6_000_000, || char_case(1), check_offsets),
            suite("dictionaries", "some offset is corrected", 40_000, 2_000_000, dict_ana_case, check_offsets),
            suite("large", "some offset is corrected", 2_000, 20_000, large_ana_case, check_offsets),
        ],
        known: vec![],
        assumptions: vec![
            "the regex and unicode-normalization crates (see P16, P17) decide the pieces of a text",
            "a token end where text was deleted may be mapped before or behind the deleted text",
        ],
    }
}

pub fn p20() -> Property {
    Property {
        id: "P20",
        suites: vec![
            suite("routes", "a token filter changes some list", 60_000, 2_000_000, compose_case, check_compose),
            suite("side by side", "two of the analyzers give a text different tokens", 5_000, 200_000, side_case, check_side_by_side),
            suite("large", "a token filter changes some list", 2_000, 40_000, large_ana_case, check_compose),
        ],
        known: vec![],
        assumptions: vec!["what one numeral is converted to is taken from the number filter itself (P24 checks it)"],
    }
}
