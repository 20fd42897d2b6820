//! P21-P24: token filters.
use crate::gen::*;
use crate::runner::*;
use crate::toks::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn run(c: &TfCase, o: &mut Obs) -> Result<Vec<T>, String> {
    let f = c.filter.load_by(route(&c.tokens.iter().map(|t| t.text.as_str()).collect::<String>()))?;
    let want = model(&c.filter, &c.tokens);
    let got = apply(&c.filter, &f, &c.tokens)?;
    compare(&c.filter, &c.tokens, &got, &want)?;
    o.label(c.filter.kind());
    o.steps += c.tokens.len() as u64;
    Ok(got)
}

fn check_select(c: &TfCase, o: &mut Obs) -> CheckResult {
    let got = run(c, o)?;
    o.nontrivial = !got.is_empty() && got.len() < c.tokens.len();
    // keep and stop of the same set partition the list
    let other = match c.filter.clone() {
        TF::KeepTags(w) => TF::StopTags(w),
        TF::StopTags(w) => TF::KeepTags(w),
        TF::KeepWords(w) => TF::StopWords(w),
        TF::StopWords(w) => TF::KeepWords(w),
        TF::KoreanKeep(w) => TF::KoreanStop(w),
        TF::KoreanStop(w) => TF::KoreanKeep(w),
        _ => return Ok(()),
    };
    let rest = apply(&other, &other.load()?, &c.tokens)?;
    let (mut a, mut b) = (got.iter().peekable(), rest.iter().peekable());
    for t in &c.tokens {
        if a.peek() == Some(&t) {
            a.next();
        } else if b.peek() == Some(&t) {
            b.next();
        } else {
            return Err(format!("{:?} and its opposite both lose or change {t:?}", c.filter));
        }
    }
    if a.next().is_some() || b.next().is_some() {
        return Err(format!("{:?} and its opposite overlap", c.filter));
    }
    Ok(())
}

fn check_rewrite(c: &TfCase, o: &mut Obs) -> CheckResult {
    let got = run(c, o)?;
    o.nontrivial = got.iter().zip(&c.tokens).any(|(a, b)| a.text != b.text);
    Ok(())
}

fn check_compound(c: &TfCase, o: &mut Obs) -> CheckResult {
    let got = run(c, o)?;
    o.nontrivial = got.len() < c.tokens.len();
    o.label_if(got.len() + 1 < c.tokens.len(), "long or several runs");
    Ok(())
}

// -------------------------------------------------------------------------------------- numbers

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NumCase {
    /// text around and between the numbers
    seps: Vec<String>,
    numbers: Vec<Written>,
}

fn sep() -> BoxedStrategy<String> {
    prop_oneof![
        3 => any_text(3),
        2 => proptest::sample::select(&["第", "円", "分", "年", ".", ",", "，", "．", "割", "-", " "][..]).prop_map(String::from),
    ]
    .prop_map(|s| s.chars().filter(|c| !is_numeral(*c)).collect())
    .boxed()
}

fn number_filter(f: &TF, seed: &str) -> Result<impl Fn(&str) -> Result<String, String>, String> {
    let real = f.load_by(route(seed))?;
    Ok(move |s: &str| -> Result<String, String> {
        let t = T { text: s.into(), start: 0, end: s.len(), pos: 0, len: 1, id: (0, true), details: vec!["名詞".into()] };
        let got = apply(&TF::Number(None), &real, std::slice::from_ref(&t)).map_err(|e| format!("{s:?}: {e}"))?;
        if got.len() != 1 || (T { text: t.text.clone(), ..got[0].clone() }) != t {
            return Err(format!("japanese_number on {s:?} changes something other than the text: {got:?}"));
        }
        Ok(got[0].text.clone())
    })
}

fn check_numbers(c: &NumCase, o: &mut Obs) -> CheckResult {
    let conv = number_filter(&TF::Number(None), &c.seps.concat())?;
    let (mut text, mut want) = (String::new(), String::new());
    let sep = |i: usize| c.seps.get(i).map_or("", |s| s.as_str());
    text.push_str(sep(0));
    want.push_str(sep(0));
    for (i, n) in c.numbers.iter().enumerate() {
        if i > 0 {
            let s = if sep(i + 1).is_empty() { "、" } else { sep(i + 1) };
            text.push_str(s);
            want.push_str(s);
        }
        let (w, d) = n.show();
        o.label_if(n.positional, "digit by digit");
        o.label_if(!n.positional && w.chars().any(|c| c.is_ascii_digit()), "digits with units");
        o.label_if(d.len() > 16, "above 10^16");
        text.push_str(&w);
        want.push_str(&d);
    }
    text.push_str(sep(1));
    want.push_str(sep(1));
    let got = conv(&text)?;
    o.nontrivial = got != text;
    o.steps += c.numbers.len() as u64;
    if got != want {
        return Err(format!("japanese_number turns {text:?} into {got:?} instead of {want:?}"));
    }
    if conv(&got)? != got {
        return Err(format!("japanese_number changes its own result {got:?}"));
    }
    Ok(())
}

const NUMERIC: &str = "0129０３９〇零一壱二三四七九十拾百千万億兆京垓十百千万";

fn check_any(texts: &Vec<String>, o: &mut Obs) -> CheckResult {
    let conv = number_filter(&TF::Number(None), &texts.concat())?;
    for t in texts {
        let got = conv(t)?;
        // every maximal run of numerals becomes Arabic digits by itself, the rest stays
        let mut want = String::new();
        let mut rest = t.as_str();
        while let Some(c) = rest.chars().next() {
            let num = is_numeral(c);
            let n = rest.find(|c| is_numeral(c) != num).unwrap_or(rest.len());
            if num {
                let r = conv(&rest[..n])?;
                if r.is_empty() || !r.chars().all(|c| c.is_ascii_digit()) {
                    return Err(format!("japanese_number turns {:?} into {r:?}", &rest[..n]));
                }
                want.push_str(&r);
            } else {
                want.push_str(&rest[..n]);
            }
            rest = &rest[n..];
        }
        if got != want {
            return Err(format!("japanese_number turns {t:?} into {got:?}, but its parts into {want:?}"));
        }
        o.nontrivial |= got != *t;
        o.steps += 1;
    }
    Ok(())
}

fn check_number_tags(c: &TfCase, o: &mut Obs) -> CheckResult {
    let TF::Number(tags) = &c.filter else { return Err("generator".into()) };
    let conv = number_filter(&TF::Number(None), "")?;
    let want: Vec<T> = c
        .tokens
        .iter()
        .map(|t| -> Result<T, String> {
            let selected = tags.as_ref().map_or(true, |w| tagged(t, w));
            o.nontrivial |= !selected && t.text.chars().any(is_numeral);
            Ok(T { text: if selected { conv(&t.text)? } else { t.text.clone() }, ..t.clone() })
        })
        .collect::<Result<_, _>>()?;
    let real = c.filter.load_by(route(&c.tokens.iter().map(|t| t.text.as_str()).collect::<String>()))?;
    let got = apply(&c.filter, &real, &c.tokens)?;
    o.steps += c.tokens.len() as u64;
    compare(&c.filter, &c.tokens, &got, &want)
}

fn number_tags_case() -> BoxedStrategy<TfCase> {
    (tokens(6), picks(), vec(written(), 6), prop::option::weighted(0.8, Just(())))
        .prop_map(|(mut ts, picks, nums, some)| {
            for (t, n) in ts.iter_mut().zip(nums) {
                if t.id.0 % 3 > 0 {
                    t.text = n.show().0;
                }
            }
            let filter = TF::Number(some.map(|_| tags_for(&ts, &picks)));
            TfCase { filter, tokens: ts }
        })
        .boxed()
}

pub fn p21() -> Property {
    Property {
        id: "P21",
        suites: vec![
            suite("select", "some tokens are kept and some removed", 150_000, 8_000_000, select_case, check_select),
            suite("large", "some tokens are kept and some removed", 2000, 80000, || large_case(select_case()), check_select),
        ],
        known: vec![],
        assumptions: vec!["every token has at least one detail, as every tokenizer's tokens have"],
    }
}
pub fn p22() -> Property {
    Property {
        id: "P22",
        suites: vec![
            suite("rewrite", "some text changes", 150_000, 8_000_000, rewrite_case, check_rewrite),
            suite("large", "some text changes", 2000, 80000, || large_case(rewrite_case()), check_rewrite),
        ],
        known: vec![],
        assumptions: vec![
            "every token has at least one detail, as every tokenizer's tokens have",
            "case mapping is that of the Rust standard library",
        ],
    }
}
pub fn p23() -> Property {
    Property {
        id: "P23",
        suites: vec![
            suite("compound", "some run is merged", 150_000, 8_000_000, compound_case, check_compound),
            suite("large", "some run is merged", 2000, 80000, || large_case(compound_case()), check_compound),
        ],
        known: vec![],
        assumptions: vec!["every token has at least one detail, as every tokenizer's tokens have"],
    }
}
pub fn p24() -> Property {
    Property {
        id: "P24",
        suites: vec![
            suite(
                "numbers",
                "some numeral is rewritten",
                200_000,
                10_000_000,
                || {
                    (vec(sep(), 0..=4usize), vec(written(), 1..=3usize))
                        .prop_map(|(seps, numbers)| NumCase { seps, numbers })
                        .boxed()
                },
                check_numbers,
            ),
            suite(
                "any text",
                "some text changes",
                80_000,
                5_000_000,
                || {
                    let n: Vec<char> = NUMERIC.chars().collect();
                    vec(
                        vec(prop_oneof![4 => proptest::sample::select(n), 1 => any_char(), 1 => any::<char>()], 0..=12usize)
                            .prop_map(|v| v.into_iter().collect::<String>()),
                        1..=4usize,
                    )
                    .boxed()
                },
                check_any,
            ),
            suite(
                "large",
                "some numeral is rewritten",
                1_500,
                60_000,
                || {
                    (vec(sep(), 0..=300usize), vec(written(), 1..=300usize), 0usize..4)
                        .prop_map(|(seps, mut numbers, zeros)| {
                            if zeros == 0 {
                                // hundreds of digits
                                for w in numbers.iter_mut().step_by(7) {
                                    w.positional = true;
                                    w.groups = w.groups.iter().cycle().take(w.groups.len() * 20).copied().collect();
                                }
                            }
                            NumCase { seps, numbers }
                        })
                        .boxed()
                },
                check_numbers,
            ),
            suite("tags", "a numeral of an unselected token stays", 60_000, 3_000_000, number_tags_case, check_number_tags),
        ],
        known: vec![],
        assumptions: vec![],
    }
}
