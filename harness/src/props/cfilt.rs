//! P15-P19: character filters and analyzer offsets.
use crate::chars::*;
use crate::runner::*;

fn check_case(c: &FilterCase, o: &mut Obs) -> CheckResult {
    let f = c.filter.load_by(crate::toks::route(&c.texts.concat()))?;
    for t in &c.texts {
        let out = check_filter(&c.filter, &f, t, o)?;
        o.nontrivial |= out.text != *t;
        if let CF::Norm(_) = c.filter {
            let (again, _, _) = f.apply(&out.text).map_err(|e| format!("{e:?}"))?;
            if again != out.text {
                return Err(format!("{:?}: normalising {:?} again changes it", c.filter, out.text));
            }
        }
        if let CF::Iter(..) = c.filter {
            if out.text.chars().count() != t.chars().count() {
                return Err("model: character count changed".into());
            }
        }
    }
    Ok(())
}

const CHANGED: &str = "the filter changes some text";

pub fn p15() -> Property {
    Property {
        id: "P15",
        suites: vec![
            suite("mapping", CHANGED, 150_000, 8_000_000, || filter_case(raw_mapping()), check_case),
            suite("large", CHANGED, 240, 12_000, || large_filter_case(raw_mapping()), check_case),
        ],
        known: vec![],
        assumptions: vec!["keys are non-empty and without NUL (keys with NUL are rejected, see P25)"],
    }
}
pub fn p16() -> Property {
    Property {
        id: "P16",
        suites: vec![
            suite("regex", CHANGED, 100_000, 5_000_000, || filter_case(raw_regex()), check_case),
            suite("large", CHANGED, 1_600, 80_000, || large_filter_case(raw_regex()), check_case),
        ],
        known: vec![],
        assumptions: vec!["the regex crate decides which pieces of a text match a pattern"],
    }
}
pub fn p17() -> Property {
    Property {
        id: "P17",
        suites: vec![
            suite("normalize", CHANGED, 120_000, 6_000_000, || filter_case(raw_norm()), check_case),
            suite("large", CHANGED, 320, 16_000, || large_filter_case(raw_norm()), check_case),
        ],
        known: vec![],
        assumptions: vec!["the unicode-normalization crate normalises whole strings correctly"],
    }
}
pub fn p18() -> Property {
    Property {
        id: "P18",
        suites: vec![
            suite("iteration marks", CHANGED, 150_000, 8_000_000, || filter_case(raw_iter()), check_case),
            suite("large", CHANGED, 1_600, 80_000, || large_filter_case(raw_iter()), check_case),
        ],
        known: vec![],
        assumptions: vec![],
    }
}
