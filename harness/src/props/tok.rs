//! P01-P05: tokenization.
use crate::dicts::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use lindera_tokenizer::tokenizer::Tokenizer;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn check_tiling(text: &str, toks: &[Tok]) -> CheckResult {
    let mut at = 0;
    for (i, t) in toks.iter().enumerate() {
        if t.start != at || t.end <= t.start || t.end > text.len() {
            return Err(format!("text {text:?}: token {i} {t:?} does not continue at byte {at}"));
        }
        if text.get(t.start..t.end) != Some(&t.text) {
            return Err(format!("text {text:?}: token {i} {t:?} is not the slice of its byte range"));
        }
        if t.position != i || t.position_length != 1 {
            return Err(format!("text {text:?}: token {i} {t:?} has a wrong position or length"));
        }
        at = t.end;
    }
    if at != text.len() {
        return Err(format!("text {text:?}: tokens end at byte {at} of {}", text.len()));
    }
    Ok(())
}

fn text_labels(o: &mut Obs, text: &str, toks: &[Tok]) {
    o.label_if(text.contains(DELIMS), "delimiter");
    o.label_if(text.contains("\n\n") || text.contains("。。") || text.contains("\t\t"), "empty-sentence");
    o.label_if(toks.iter().any(|t| t.word_id.0 == u32::MAX), "unknown-token");
    o.label_if(toks.iter().any(|t| t.word_id.0 != u32::MAX && t.word_id.1), "system-token");
    o.label_if(toks.iter().any(|t| !t.word_id.1), "user-token");
    o.label_if(toks.iter().any(|t| t.text.chars().count() > 1), "multi-char-token");
    o.label_if(toks.iter().any(|t| t.word_id.0 == u32::MAX && t.text.chars().count() > 1), "grouped-unknown");
    o.label_if(text.chars().any(|c| c as u32 > 0xFFFF), "astral");
}

pub fn p01() -> Property {
    fn check(c: &TokCase, o: &mut Obs) -> CheckResult {
        let t = c.dict.tokenizer(&c.user, &c.mode)?;
        for text in &c.texts {
            let toks = tokenize(&t, text)?;
            check_tiling(text, &toks)?;
            let joined: String = toks.iter().map(|t| t.text.as_str()).collect();
            if &joined != text {
                return Err(format!("text {text:?}: tokens join to {joined:?}"));
            }
            o.steps += 1;
            text_labels(o, text, &toks);
            o.nontrivial |= toks.len() >= 3 && toks.iter().any(|t| t.text.chars().count() > 1);
        }
        o.label_if(matches!(c.mode, ModeSpec::Normal), "normal");
        o.label_if(!matches!(c.mode, ModeSpec::Normal), "decompose");
        o.label_if(!c.user.is_empty(), "user-dictionary");
        Ok(())
    }
    Property {
        id: "P01",
        suites: vec![
            suite("dicts", "some text yields at least three tokens, one of several characters", 100_000, 4_000_000,
                || tok_case(mode(), 8, 14), check),
            suite("long", "some text yields at least three tokens, one of several characters", 8_000, 300_000,
                || tok_case_sized(mode(), 3, 300, DictSize { rows: 120, user: 12, matrix: 6, alpha: 12 }), check),
            suite("huge", "some text yields at least three tokens, one of several characters", 240, 10_000, huge_case,
                |c: &HugeCase, o: &mut Obs| check(&c.texts(false), o).map_err(|e| shorter(e))),
        ],
        known: vec![],
        assumptions: vec![
            "every character category has at least one unknown-word template and DEFAULT is defined",
            "at most 31 dictionary entries share one surface (known finding of P06)",
        ],
    }
}

/// Texts of tens of thousands of characters: one sentence, or many.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeCase {
    base: TokCase,
    chars: u32,
    one_sentence: bool,
}

fn huge_case() -> BoxedStrategy<HugeCase> {
    let size = prop_oneof![3 => 300u32..5_000, 2 => 5_000u32..30_000, 1 => 66_000u32..90_000];
    (tok_case_sized(mode(), 4, 14, DictSize { rows: 24, user: 4, matrix: 3, alpha: 5 }), size, any::<bool>())
        .prop_map(|(mut base, chars, one_sentence)| {
            if chars > if base.mode == ModeSpec::Normal { 12_000 } else { 4_000 } {
                // proposing the rest of a group at each of its characters takes a time that grows with its square
                base.dict.cats.iter_mut().for_each(|c| c.group = false);
            }
            HugeCase { base, chars, one_sentence }
        })
        .boxed()
}

impl HugeCase {
    fn unit(&self) -> String {
        let s: String = self.base.texts.concat().chars().filter(|c| !self.one_sentence || !DELIMS.contains(c)).collect();
        if s.is_empty() { "東".into() } else { s }
    }
    /// The long text, with or without the short ones.
    fn texts(&self, short: bool) -> TokCase {
        let u = self.unit();
        let mut c = self.base.clone();
        if !short {
            c.texts.clear();
        }
        c.texts.push(u.repeat(self.chars as usize / u.chars().count() + 1));
        c
    }
}

fn shorter(e: String) -> String {
    if e.len() > 3000 { format!("{} ... {}", e.chars().take(1000).collect::<String>(), e.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>()) } else { e }
}

fn check_optimal(c: &TokCase, o: &mut Obs) -> CheckResult {
    let t = c.dict.tokenizer(&c.user, &c.mode)?;
    let m = Model::new(&c.dict, &c.user);
    for text in &c.texts {
        let toks = tokenize(&t, text)?;
        check_tiling(text, &toks)?;
        text_labels(o, text, &toks);
        let mut base = 0;
        let mut k = 0;
        for s in sentences(text) {
            let edges = m.lattice(s, &c.mode);
            let best = m.best(s, &edges).ok_or("model: no path")?;
            let from = k;
            while k < toks.len() && toks[k].start < base + s.len() {
                k += 1;
            }
            let mine = &toks[from..k];
            let got = m.path_cost(s, base, mine, &edges)?;
            if got != best {
                let seg: Vec<&str> = mine.iter().map(|t| t.text.as_str()).collect();
                return Err(format!(
                    "sentence {s:?} ({:?}): returned path {seg:?} costs {got}, the cheapest path costs {best}",
                    c.mode
                ));
            }
            o.steps += 1;
            let multi = mine.len() >= 2 && edges.len() >= mine.len() + 3;
            o.nontrivial |= multi;
            if multi && mine.len() < 5_000 {
                // did the choice need more than greedy longest match?
                let mut at = 0;
                let greedy = mine.iter().all(|t| {
                    let longest = edges.iter().filter(|e| e.start == at).map(|e| e.end).max().unwrap_or(0);
                    at = t.end - base;
                    longest == at
                });
                o.label_if(!greedy, "not-longest-match");
                o.label_if(edges.iter().any(|e| e.penalty != 0), "penalised-candidate");
                o.label_if(
                    mine.iter().any(|t| edges.iter().any(|e| e.penalty != 0 && e.start == t.start - base && e.end == t.end - base)),
                    "penalised-token",
                );
            }
            base += s.len();
        }
    }
    Ok(())
}

fn check_ids(c: &TokCase, o: &mut Obs) -> CheckResult {
    o.label_if(c.dict.fwd > 255, "right-ids-over-255");
    o.label_if(c.dict.bwd > 255, "left-ids-over-255");
    o.label_if(c.dict.fwd.max(c.dict.bwd) > 32767, "ids-over-32767");
    check_optimal(c, o)
}

/// One sentence of tens of thousands of dear (or cheap) words: its cost is far beyond 32 bits.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FarCase {
    base: TokCase,
    words: u32,
    negative: bool,
}

fn far_case(mode: BoxedStrategy<ModeSpec>) -> BoxedStrategy<FarCase> {
    (tok_case_sized(mode, 4, 12, DictSize { rows: 12, user: 3, matrix: 3, alpha: 4 }), 50_000u32..80_000, any::<bool>())
        .prop_map(|(mut base, words, negative)| {
            let far = |c: &mut i16| {
                let v = 24_000 + (*c as i32).abs() % 8_000;
                *c = if negative { -v } else { v } as i16;
            };
            for c in &mut base.dict.cats {
                c.group = false;
            }
            base.dict.rows.iter_mut().for_each(|r| far(&mut r.cost));
            base.dict.unk.iter_mut().for_each(|u| far(&mut u.3));
            base.dict.costs.iter_mut().for_each(|u| far(&mut u.2));
            for u in &mut base.user {
                if let URow::Detailed { cost, .. } = u {
                    far(cost);
                }
            }
            if negative {
                // pairs that are not listed would be dear
                let old = std::mem::take(&mut base.dict.costs);
                for f in 0..base.dict.fwd {
                    for b in 0..base.dict.bwd {
                        let c = old.iter().find(|o| (o.0, o.1) == (f, b)).map(|o| o.2).unwrap_or(-25_000);
                        base.dict.costs.push((f, b, c));
                    }
                }
            }
            FarCase { base, words, negative }
        })
        .boxed()
}

fn check_far(c: &FarCase, o: &mut Obs) -> CheckResult {
    let unit: String = c.base.texts.concat().chars().filter(|c| !DELIMS.contains(c)).collect();
    if unit.is_empty() {
        return Ok(());
    }
    let n = c.words as usize / unit.chars().count() + 1;
    let mut one = c.base.clone();
    one.texts = vec![unit.repeat(n)];
    o.label(if c.negative { "negative" } else { "positive" });
    let mut inner = Obs::default();
    let r = check_optimal(&one, &mut inner);
    o.nontrivial = inner.nontrivial;
    o.steps = inner.steps;
    r.map_err(|e| {
        let short: String = e.chars().take(600).collect();
        format!("{unit:?} repeated {n} times: {short}")
    })
}

const OPT_RULE: &str = "some sentence has at least two tokens and three more candidate words than tokens";

pub fn p02() -> Property {
    Property {
        id: "P02",
        suites: vec![
            suite("normal", OPT_RULE, 100_000, 4_000_000, || tok_case(Just(ModeSpec::Normal).boxed(), 8, 12), check_optimal),
            suite("dense", OPT_RULE, 25_000, 1_000_000,
                || tok_case_sized(Just(ModeSpec::Normal).boxed(), 6, 30, DictSize { rows: 60, user: 10, matrix: 6, alpha: 3 }),
                check_optimal),
            suite("ids", OPT_RULE, 20_000, 600_000,
                || spread(tok_case_sized(Just(ModeSpec::Normal).boxed(), 6, 20, DictSize { rows: 40, user: 8, matrix: 6, alpha: 3 }), 1500),
                check_ids),
            suite("wide-ids", OPT_RULE, 1_500, 50_000,
                || spread(tok_case_sized(Just(ModeSpec::Normal).boxed(), 6, 20, DictSize { rows: 40, user: 8, matrix: 4, alpha: 3 }), 65_500),
                check_ids),
            suite("nested", OPT_RULE, 1_200, 40_000,
                || nested(tok_case_sized(Just(ModeSpec::Normal).boxed(), 2, 8, DictSize { rows: 12, user: 4, matrix: 4, alpha: 3 })), check_optimal),
            suite("far", OPT_RULE, 160, 6_000, || far_case(Just(ModeSpec::Normal).boxed()), check_far),
        ],
        known: vec![],
        assumptions: vec![
            "every character category has at least one unknown-word template and DEFAULT is defined",
            "context ids are below the matrix sizes",
            "equal-cost paths are interchangeable (the property fixes the cost, not the tie-break)",
        ],
    }
}

pub fn p03() -> Property {
    Property {
        id: "P03",
        suites: vec![
            suite("decompose", OPT_RULE, 100_000, 4_000_000, || tok_case(decompose(), 8, 12), check_optimal),
            suite("dense", OPT_RULE, 25_000, 1_000_000,
                || tok_case_sized(decompose(), 6, 30, DictSize { rows: 60, user: 10, matrix: 6, alpha: 3 }),
                check_optimal),
            suite("ids", OPT_RULE, 20_000, 600_000,
                || spread(tok_case_sized(decompose(), 6, 20, DictSize { rows: 40, user: 8, matrix: 6, alpha: 3 }), 1500),
                check_ids),
            suite("nested", OPT_RULE, 1_200, 40_000,
                || nested(tok_case_sized(decompose(), 2, 8, DictSize { rows: 12, user: 4, matrix: 4, alpha: 3 })), check_optimal),
            suite("far", OPT_RULE, 120, 4_000, || far_case(decompose()), check_far),
        ],
        known: vec![],
        assumptions: vec![
            "every character category has at least one unknown-word template and DEFAULT is defined",
        ],
    }
}

pub fn p04() -> Property {
    fn shifted(toks: &[Tok], off: usize, pos: usize) -> Vec<Tok> {
        toks.iter()
            .map(|t| Tok { start: t.start + off, end: t.end + off, position: t.position + pos, ..t.clone() })
            .collect()
    }
    fn fresh(t: &Tokenizer, text: &str) -> Result<Vec<Tok>, String> {
        tokenize(&t.clone(), text)
    }
    fn local(c: &TokCase, o: &mut Obs) -> CheckResult {
        let t = c.dict.tokenizer(&c.user, &c.mode)?;
        let mut all = vec![];
        for text in &c.texts {
            let whole = tokenize(&t, text)?;
            let mut cat: Vec<Tok> = vec![];
            let mut off = 0;
            let ss = sentences(text);
            for s in &ss {
                let part = fresh(&t, s)?;
                cat.extend(shifted(&part, off, cat.len()));
                off += s.len();
            }
            if cat != whole {
                return Err(format!("text {text:?}: tokens {whole:?} differ from those of its sentences alone {cat:?}"));
            }
            let again = tokenize(&t, text)?;
            if again != whole {
                return Err(format!("text {text:?}: a second tokenization gives {again:?} instead of {whole:?}"));
            }
            o.steps += 1;
            o.label_if(ss.len() >= 3, "three-sentences");
            let lens: Vec<usize> = ss.iter().map(|s| s.len()).collect();
            o.label_if(lens.windows(2).any(|w| w[1] > w[0]), "growing-sentence");
            o.label_if(lens.windows(2).any(|w| w[1] < w[0]), "shrinking-sentence");
            o.nontrivial |= ss.len() >= 2 && whole.len() >= 4;
            all.push((text, whole));
        }
        // earlier texts do not matter: same results in the reverse order on the used tokenizer
        for (text, whole) in all.iter().rev() {
            if &tokenize(&t, text)? != whole {
                return Err(format!("text {text:?}: result changed after tokenizing other texts"));
            }
        }
        // concatenating texts that end a sentence
        for w in all.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            if a.0.ends_with(DELIMS) {
                let joined = format!("{}{}", a.0, b.0);
                let mut exp = a.1.clone();
                exp.extend(shifted(&b.1, a.0.len(), a.1.len()));
                if fresh(&t, &joined)? != exp {
                    return Err(format!("text {joined:?}: not the concatenation of {:?} and {:?}", a.0, b.0));
                }
                o.label("joined");
            }
        }
        Ok(())
    }
    /// A long text between the short ones, and very many texts, all on one tokenizer.
    fn long_history(c: &HugeCase, o: &mut Obs) -> CheckResult {
        let t = c.base.dict.tokenizer(&c.base.user, &c.base.mode)?;
        let alone: Vec<Vec<Tok>> = c.base.texts.iter().map(|x| fresh(&t, x)).collect::<Result<_, _>>()?;
        let again = |when: &str| -> CheckResult {
            for (x, want) in c.base.texts.iter().zip(&alone) {
                let got = tokenize(&t, x)?;
                if &got != want {
                    return Err(format!("text {x:?}: {when} the tokens are {got:?} instead of {want:?}"));
                }
            }
            Ok(())
        };
        again("the second time")?;
        let whole = c.texts(false);
        let long = &whole.texts[0];
        let first = tokenize(&t, long)?;
        again("after a long text")?;
        if fresh(&t, long)? != first {
            return Err(shorter(format!("{:?} over and over: another tokenizer gives other tokens", c.unit())));
        }
        o.steps += first.len() as u64;
        let (unit, mut off, mut at) = (c.unit(), 0, 0);
        if unit.ends_with(DELIMS) {
            let one = fresh(&t, &unit)?;
            while off < long.len() {
                let want = shifted(&one, off, at);
                if first.get(at..at + one.len()) != Some(&want[..]) {
                    return Err(shorter(format!("{unit:?} over and over: at byte {off} the tokens are not those of the unit")));
                }
                off += unit.len();
                at += one.len();
            }
            o.label("many equal sentences");
        } else if unit.contains(DELIMS) {
            let mut cat: Vec<Tok> = vec![];
            for x in sentences(long) {
                let part = tokenize(&t, x)?;
                cat.extend(shifted(&part, off, cat.len()));
                off += x.len();
            }
            if cat != first {
                return Err(shorter(format!("{unit:?} over and over: the tokens are not those of the sentences alone")));
            }
            o.label("many sentences");
        }
        for _ in 0..c.chars as usize / 200 {
            again("after many texts")?;
            o.steps += alone.len() as u64;
        }
        if tokenize(&t, long)? != first {
            return Err(shorter(format!("{unit:?} over and over: after many texts the tokens are others")));
        }
        o.nontrivial = first.len() >= 4 && alone.iter().any(|a| a.len() >= 2);
        Ok(())
    }
    fn threads(c: &TokCase, o: &mut Obs) -> CheckResult {
        let t = c.dict.tokenizer(&c.user, &c.mode)?;
        let alone: Vec<Vec<Tok>> = c.texts.iter().map(|x| fresh(&t, x)).collect::<Result<_, _>>()?;
        let results: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4usize)
                .map(|k| {
                    let (t, alone) = (&t, &alone);
                    s.spawn(move || {
                        for round in 0..3 {
                            for i in 0..c.texts.len() {
                                let i = (i + k + round) % c.texts.len();
                                if tokenize(t, &c.texts[i])? != alone[i] {
                                    return Err(format!("text {:?}: result differs while other threads tokenize", c.texts[i]));
                                }
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
        });
        for r in results {
            r?;
        }
        o.steps += 12 * c.texts.len() as u64;
        o.nontrivial = alone.iter().filter(|t| t.len() >= 2).count() >= 2;
        Ok(())
    }
    Property {
        id: "P04",
        suites: vec![
            suite("sentences", "some text has at least two sentences and four tokens", 80_000, 3_000_000,
                || {
                    // many delimiters, sentences of varying lengths
                    let p = prop_oneof![4 => piece(), 1 => any::<u8>().prop_map(Piece::Delim)];
                    (dict_case(DictSize { rows: 24, user: 6, matrix: 4, alpha: 6 }), mode(),
                        proptest::collection::vec(proptest::collection::vec(p, 0..=24), 1..=6))
                        .prop_map(|((dict, user, alpha), mode, texts)| {
                            let texts = texts.iter().map(|p| {
                                let w: Vec<&str> = dict.rows.iter().map(|r| r.surface.as_str()).collect();
                                let u: Vec<&str> = user.iter().map(|r| r.surface()).collect();
                                render(p, &alpha, &w, &u)
                            }).collect();
                            TokCase { dict, user, mode, texts }
                        }).boxed()
                }, local),
            suite("long history", "the long text has four tokens and some short one two", 240, 10_000, huge_case, long_history),
            suite("threads", "at least two texts with two tokens each", 15_000, 500_000, || tok_case(mode(), 6, 20), threads),
        ],
        known: vec![],
        assumptions: vec!["thread schedules are whatever the operating system gives (sampled, not enumerated)"],
    }
}

pub fn p05() -> Property {
    fn check(c: &TokCase, o: &mut Obs) -> CheckResult {
        let t = c.dict.tokenizer(&c.user, &c.mode)?;
        let m = Model::new(&c.dict, &c.user);
        for text in &c.texts {
            let toks = tokenize(&t, text)?;
            text_labels(o, text, &toks);
            let mut real = t.tokenize(text).map_err(|e| format!("{e:?}"))?;
            for (i, tok) in toks.iter().enumerate() {
                o.steps += 1;
                let d = tok.details.clone();
                match m.identify(tok)? {
                    None | Some(Word::Unk(_)) => {
                        if d != Some(vec!["UNK".to_string()]) {
                            return Err(format!("unknown token {tok:?} has details {d:?}"));
                        }
                    }
                    Some(Word::Sys(r)) => {
                        let row = &c.dict.rows[r];
                        let want: Vec<String> = row.details.iter().map(|x| norm(c.dict.kind, x)).collect();
                        if norm(c.dict.kind, &row.surface) != tok.text {
                            return Err(format!("token {tok:?} carries row {row:?}, which has another surface"));
                        }
                        if d.as_ref() != Some(&want) {
                            return Err(format!("token {tok:?}: details {d:?} instead of {want:?}"));
                        }
                        if !tok.word_id.1 || t.dictionary.word_details(tok.word_id.0 as usize) != d {
                            return Err(format!("token {tok:?}: word id does not lead to its details"));
                        }
                        o.nontrivial |= m.rows(&tok.text).len() >= 2;
                        o.label_if(m.rows(&tok.text).len() >= 2, "homograph");
                    }
                    Some(Word::User(r)) => {
                        let row = &c.user[r];
                        let (_, _, _, want) = row.meaning(c.dict.kind);
                        if row.surface() != tok.text {
                            return Err(format!("token {tok:?} carries user row {row:?}, which has another surface"));
                        }
                        if d.as_ref() != Some(&want) {
                            return Err(format!("token {tok:?}: details {d:?} instead of {want:?}"));
                        }
                        if tok.word_id.1 {
                            return Err(format!("user token {tok:?} is flagged as a system word"));
                        }
                        o.nontrivial = true;
                        o.label_if(!m.rows(&tok.text).is_empty(), "user-shadows-system");
                    }
                }
                // reading again, in any order, and through a clone
                let a: Option<Vec<String>> = real[i].get_details().map(|v| v.into_iter().map(String::from).collect());
                let mut cl = real[i].clone();
                let b: Option<Vec<String>> = real[i].get_details().map(|v| v.into_iter().map(String::from).collect());
                let e: Option<Vec<String>> = cl.get_details().map(|v| v.into_iter().map(String::from).collect());
                if a != d || b != d || e != d {
                    return Err(format!("token {tok:?}: details read again are {a:?}, {b:?}, {e:?}"));
                }
            }
        }
        Ok(())
    }
    Property {
        id: "P05",
        suites: vec![
            suite("dicts", "some token is a user word or a system word with at least two rows of its surface", 100_000, 4_000_000,
                || tok_case(mode(), 6, 14), check),
            suite("homographs", "some token is a user word or a system word with at least two rows of its surface", 20_000, 800_000,
                || tok_case_sized(mode(), 6, 14, DictSize { rows: 80, user: 30, matrix: 3, alpha: 2 }), check),
            suite("long details", "some token is a user word or a system word with at least two rows of its surface", 2_000, 80_000,
                || {
                    (tok_case(mode(), 4, 10), proptest::collection::vec((any::<u16>(), any::<u8>(), 200u32..20_000), 1..=4))
                        .prop_map(|(mut c, long)| {
                            let (n, u) = (c.dict.rows.len(), c.user.len());
                            for (row, col, len) in long {
                                let row = row as usize;
                                let details = if row % 2 == 1 && u > 0 {
                                    match &mut c.user[row / 2 % u] {
                                        URow::Detailed { details, .. } => details,
                                        URow::Simple { reading, .. } => {
                                            *reading = "ヨミ".repeat(len as usize / 6);
                                            continue;
                                        }
                                    }
                                } else {
                                    &mut c.dict.rows[row / 2 % n].details
                                };
                                // the first one identifies the row
                                if details.len() < 2 {
                                    continue;
                                }
                                let k = 1 + col as usize % (details.len() - 1);
                                let start = details[k].clone();
                                details[k] = start + &["カ", "x", "東京", "p,q"][col as usize / 64].repeat(len as usize / 3);
                            }
                            c
                        }).boxed()
                }, check),
            suite("large", "some token is a user word or a system word with at least two rows of its surface", 32, 1_000,
                || super::dict::big_case(500..20_000, 65_600..90_000),
                |c: &super::dict::BigCase, o: &mut Obs| {
                    let Some(dict) = super::dict::big_dict(c) else { return Ok(()) };
                    o.label_if(dict.rows.len() > 65_536, "over-65536-rows");
                    let step = dict.rows.len() / 300 + 1;
                    let texts = dict.rows.chunks(step).map(|r| r.iter().take(3).map(|r| r.surface.as_str()).collect()).collect();
                    check(&TokCase { dict, user: vec![], mode: ModeSpec::Normal, texts }, o)
                }),
        ],
        known: vec![],
        assumptions: vec!["at most 31 dictionary entries share one surface (known finding of P06)"],
    }
}
