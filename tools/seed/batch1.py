PRE = r'''
mod helper;
#[allow(unused_imports)]
use helper::*;
'''
LIN = 'lindera-core/src/viterbi.rs'
SEEDS = []
def S(id, prop, needs, breaks, edits, main=None, **kw):
    d = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if main: d['main'] = PRE + main
    SEEDS.append(d)

S('p01-blank-sentence', 'P01', 'a text with a sentence that is only white space, such as an empty line',
  'Sentences of white space only are skipped without advancing, so their bytes are in no token and all later byte offsets are too small.',
  [('lindera-tokenizer/src/tokenizer.rs', 'if text.is_empty() {', 'if sentence.trim().is_empty() {')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    for text in ["東京\n\n東京", " \n東京", "東京。\t東京", "東京"] {
        let mut at = 0;
        for token in t.tokenize(text).unwrap() {
            assert_eq!(token.byte_start, at);
            at = token.byte_end;
            assert_eq!(token.text, &text[token.byte_start..token.byte_end]);
        }
        assert_eq!(at, text.len(), "{text:?}");
    }
}
''')

S('p02-left-id-slots', 'P02', 'two words starting at the same place whose left context ids differ by a multiple of 256',
  'The best predecessor is remembered per low byte of the left context id, so a word can be given the predecessor and connection cost of another and a dearer path wins.',
  [(LIN, '''            for &right_edge_id in right_edge_ids {
                let right_word_entry = self.edge(right_edge_id).word_entry;
                let best_path = left_edge_ids
''', '''            // Words with the same left context have the same best predecessor.
            let mut best_paths: [Option<(i64, EdgeId)>; 256] = [None; 256];
            for &right_edge_id in right_edge_ids {
                let right_word_entry = self.edge(right_edge_id).word_entry;
                let slot = (right_word_entry.left_id() & 0xff) as usize;
                let best_path = best_paths[slot].or_else(|| left_edge_ids
'''), (LIN, '''                    .min_by_key(|&(cost, _)| cost);
''', '''                    .min_by_key(|&(cost, _)| cost));
                best_paths[slot] = best_path;
''')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    // 東(left id 3, dear after the start of the sentence) + 京 against 東京(left id 259, free).
    let mut m = String::from("2 300\n");
    for r in 0..2 {
        for l in 0..300 {
            m += &format!("{r} {l} {}\n", if l == 3 { 5000 } else { 0 });
        }
    }
    let lex = "東,3,1,10,NNG,*,F,*,*,*,*,*\n京,0,0,10,NNG,*,F,*,*,*,*,*\n東京,259,0,30,NNG,*,F,*,*,*,*,*\n";
    let t = tokenizer(dict("d", &[("lex.csv", lex), ("matrix.def", &m)]), None, Mode::Normal);
    assert_eq!(texts(&t, "東京"), ["東京"]);
    // The other way round.
    let lex = "東,259,1,10,NNG,*,F,*,*,*,*,*\n京,0,0,10,NNG,*,F,*,*,*,*,*\n東京,3,0,-30,NNG,*,F,*,*,*,*,*\n";
    let t = tokenizer(dict("e", &[("lex.csv", lex), ("matrix.def", &m)]), None, Mode::Normal);
    assert_eq!(texts(&t, "東京"), ["東", "京"]);
}
''')

S('p03-other-threshold', 'P03', 'decompose mode with a threshold for other words below the one for kanji words, and a word of other characters between the two',
  'The kanji threshold no longer bounds the penalty of words that are not all kanji, so short words of other characters are penalised.',
  [('lindera-core/src/mode.rs', 'if num_chars <= self.kanji_penalty_length_threshold {', 'if edge.kanji_only && num_chars <= self.kanji_penalty_length_threshold {')],
  r'''
use lindera_core::mode::{Mode, Penalty};
fn main() {
    let lex = "あ,0,0,100,NNG,*,F,*,*,*,*,*\nい,0,0,100,NNG,*,F,*,*,*,*,*\nあい,0,0,150,NNG,*,F,*,*,*,*,*\n";
    let penalty = Penalty {
        kanji_penalty_length_threshold: 3,
        kanji_penalty_length_penalty: 3000,
        other_penalty_length_threshold: 1,
        other_penalty_length_penalty: 1700,
    };
    let t = tokenizer(dict("d", &[("lex.csv", lex)]), None, Mode::Decompose(penalty));
    // Two characters are not more than the kanji threshold: no penalty.
    assert_eq!(texts(&t, "あい"), ["あい"]);
}
''')

S('p04-category-cache', 'P04', 'a text with two characters whose code points differ by a multiple of 65536 and whose categories differ, in different sentences',
  'The categories of characters are remembered per lattice under the low 16 bits of the character, so how a sentence is split depends on the sentences before it.',
  [(LIN, 'use std::u32;\n', 'use std::collections::HashMap;\nuse std::u32;\n'),
   (LIN, '    ends_at: Vec<Vec<EdgeId>>,\n}', '    ends_at: Vec<Vec<EdgeId>>,\n    // The categories of the characters seen so far.\n    categories: HashMap<u16, Vec<CategoryId>>,\n}'),
   (LIN, '                    let categories = char_definitions.lookup_categories(first_char);\n', '''                    let categories = self
                        .categories
                        .entry(first_char as u32 as u16)
                        .or_insert_with(|| char_definitions.lookup_categories(first_char).to_vec())
                        .clone();
''')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    // U+2000B and U+000B.
    let t = tokenizer(dict("d", &[("char.def", "DEFAULT 0 0 0\nA 0 1 0\n0x0000..0x001F A\n"), ("unk.def", &unk(&["DEFAULT", "A"])), ("lex.csv", "x,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    let alone = texts(&t, "\u{b}\u{b}");
    assert_eq!(alone, ["\u{b}\u{b}"]);
    let after = texts(&t, "\u{2000b}。\u{b}\u{b}");
    assert_eq!(after[after.len() - alone.len()..], alone[..]);
}
''')

S('p05-empty-detail', 'P05', 'a word with an empty detail column',
  'Empty detail columns are dropped, so the details of such words are shorter and the later columns are in the wrong place.',
  [('lindera-core/src/dictionary.rs', 'for bytes in joined_details_bytes.split(|&b| b == 0) {', 'for bytes in joined_details_bytes.split(|&b| b == 0).filter(|bytes| !bytes.is_empty()) {')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "東京,0,0,10,NNG,,F,x,,,,\n")]), None, Mode::Normal);
    let mut tokens = t.tokenize("東京").unwrap();
    assert_eq!(tokens[0].get_details().unwrap(), ["NNG", "", "F", "x", "", "", "", ""]);
}
''')

S('p06-skipped-row', 'P06', 'a CC-CEDICT source with a row whose id or cost is not a number, and rows after it',
  'Skipped rows no longer take a word id although their details are still written, so every later word has the details of another row.',
  [('lindera-dictionary-builder/src/dict.rs', '''        for (row_id, row) in rows.iter().enumerate() {
''', '''        let mut row_id = 0;
        for row in rows.iter() {
'''), ('lindera-dictionary-builder/src/dict.rs', '''                left_id,
                right_id,
            });
        }
''', '''                left_id,
                right_id,
            });
            row_id += 1;
        }
''')],
  r'''
use lindera_dictionary::*;
fn main() {
    let u = CATS.iter().map(|c| format!("{c},0,0,1000,*,*,*,*,*,*\n")).collect::<String>();
    let lex = "一,0,0,10,a,*,*,*,yi,*,*,*\n丁,x,0,10,b,*,*,*,ding,*,*,*\n三,0,0,10,c,*,*,*,san,*,*,*\n";
    let p = build_kind(DictionaryKind::CcCedict, "d", &[("unk.def", &u), ("lex.csv", lex)]);
    let d = DictionaryLoader::load_dictionary(p).unwrap();
    for (surface, pos) in [("一", "a"), ("三", "c")] {
        let found = d.dict.find_surface(surface);
        assert_eq!(found.len(), 1);
        assert_eq!(d.word_details(found[0].word_id.0 as usize).unwrap()[0], pos);
    }
    assert!(d.dict.find_surface("丁").is_empty());
}
''')

S('p07-last-boundary', 'P07', 'a char.def range ending at 0xFFFF and a character beyond it',
  'The end of a range that reaches 0xFFFF is dropped, so characters outside the basic plane get its categories instead of DEFAULT.',
  [('lindera-core/src/character_definition.rs', '            .collect();\n        let boundaries: Vec<u32> = boundaries_set.into_iter().collect();', '            .collect();\n        // char.def has 16-bit code points.\n        let boundaries: Vec<u32> = boundaries_set.into_iter().filter(|&b| b <= 0xffff).collect();')],
  r'''
fn main() {
    let d = dict("d", &[("char.def", "DEFAULT 0 0 0\nA 0 1 0\n0xFF00..0xFFFF A\n"), ("unk.def", &unk(&["DEFAULT", "A"])), ("lex.csv", "")]);
    let names = |c: char| d.char_definitions.lookup_categories(c).iter().map(|&i| d.char_definitions.category_name(i).to_string()).collect::<Vec<_>>();
    assert_eq!(names('\u{ff21}'), ["A"]);
    assert_eq!(names('😀'), ["DEFAULT"]);
}
''')

S('p08-missing-pairs', 'P08', 'a matrix.def that does not list every pair',
  'Pairs not listed cost nothing instead of the maximum.',
  [('lindera-dictionary-builder/src/cost_matrix.rs', 'let mut costs = vec![i16::MAX; len];', 'let mut costs = vec![0_i16; len];')],
  r'''
fn main() {
    let d = dict("d", &[("matrix.def", "2 2\n0 0 1\n0 1 2\n1 1 -3\n"), ("lex.csv", "")]);
    assert_eq!(d.cost_matrix.cost(0, 1), 2);
    assert_eq!(d.cost_matrix.cost(1, 1), -3);
    assert_eq!(d.cost_matrix.cost(1, 0), i16::MAX as i32);
}
''')

S('p09-category-prefix', 'P09', 'two categories one of whose names starts with the other, such as KANJI and KANJINUMERIC',
  'The templates of the category with the longer name are also given to the one with the shorter name.',
  [('lindera-core/src/unknown_dictionary.rs', 'if entry.surface == *target_surface {', 'if entry.surface.starts_with(target_surface) {')],
  r'''
fn main() {
    let d = dict("d", &[
        ("char.def", "DEFAULT 0 1 0\nKANJI 0 0 2\nKANJINUMERIC 1 1 0\n0x4E00..0x9FFF KANJI\n0x4E00 KANJINUMERIC KANJI\n"),
        ("unk.def", "DEFAULT,0,0,1,*,*,*,*,*,*,*,*\nKANJI,0,0,2,*,*,*,*,*,*,*,*\nKANJINUMERIC,0,0,3,*,*,*,*,*,*,*,*\n"),
        ("lex.csv", ""),
    ]);
    for (name, cost) in [("DEFAULT", 1), ("KANJI", 2), ("KANJINUMERIC", 3)] {
        let id = d.char_definitions.categories().iter().position(|c| c == name).unwrap();
        let costs: Vec<i16> = d.unknown_dictionary.lookup_word_ids(lindera_core::character_definition::CategoryId(id)).iter().map(|&w| d.unknown_dictionary.word_entry(w).word_cost).collect();
        assert_eq!(costs, [cost], "{name}");
    }
}
''')

S('p10-comment-rows', 'P10', 'a user dictionary row whose surface starts with #',
  'Rows starting with # are taken for comments and the words are missing.',
  [('lindera-dictionary-builder/src/user_dict.rs', '            .has_headers(false)\n            .flexible(self.flexible_csv)\n', '            .has_headers(false)\n            .comment(Some(b\'#\'))\n            .flexible(self.flexible_csv)\n            .trim(csv::Trim::None)\n'),
   ('lindera-dictionary-builder/src/user_dict.rs', '        debug!("reading {:?}", input_file);', '        debug!("reading user dictionary {:?}", input_file);')],
  r'''
use lindera_dictionary::*;
fn main() {
    let u = user_csv(DictionaryKind::IPADIC, "u", "東京,名詞,トウキョウ\n#タグ,名詞,タグ\n");
    assert_eq!(u.dict.find_surface("東京").len(), 1);
    let found = u.dict.find_surface("#タグ");
    assert_eq!(found.len(), 1);
    assert_eq!(u.word_details(found[0].word_id.0 as usize).unwrap()[7], "タグ");
}
''')

S('p11-binary-limit', 'P11', 'a user dictionary whose binary is larger than a mebibyte',
  'Loading the binary fails although loading the CSV works.',
  [('lindera-core/src/dictionary.rs', '''        bincode::deserialize(user_dict_data)
            .map_err''', '''        // A damaged length must not make us read without bound.
        bincode::deserialize_from(std::io::Read::take(user_dict_data, 1 << 20))
            .map_err''')],
  r'''
use lindera_dictionary::*;
use std::path::{Path, PathBuf};
fn main() {
    let mut csv = String::new();
    for i in 0..20000 {
        csv += &format!("語{i},名詞,ゴ{i}\n");
    }
    let u = user_csv(DictionaryKind::IPADIC, "u", &csv);
    assert_eq!(u.dict.find_surface("語19999").len(), 1);
    DictionaryBuilderResolver::resolve_builder(DictionaryKind::IPADIC).unwrap().build_user_dictionary(Path::new("u.csv"), Path::new("u.bin")).unwrap();
    let b = DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: PathBuf::from("u.bin"), kind: None }).expect("the binary loads");
    assert_eq!(b.dict.find_surface("語19999"), u.dict.find_surface("語19999"));
}
''')

S('p12-category-columns', 'P12', 'a category line of char.def with exactly three columns',
  'A category line without its length column makes the build panic instead of failing with an error.',
  [('lindera-core/src/character_definition.rs', 'if fields.len() != 4 {', 'if fields.len() < 3 || fields.len() > 4 {')],
  r'''
use lindera_dictionary::*;
fn main() {
    std::fs::create_dir("s").unwrap();
    std::fs::write("s/char.def", "DEFAULT 0 1 0\nKANJI 0 0\n").unwrap();
    std::fs::write("s/unk.def", unk(&["DEFAULT", "KANJI"])).unwrap();
    std::fs::write("s/matrix.def", MATRIX).unwrap();
    std::fs::write("s/lex.csv", "").unwrap();
    let r = DictionaryBuilderResolver::resolve_builder(DictionaryKind::KoDic).unwrap().build_dictionary(std::path::Path::new("s"), std::path::Path::new("o"));
    assert!(r.is_err());
}
''')

S('p13-compressed-index', 'P13', 'the compress feature with an embedded UniDic',
  'The embedded compressed dictionary has its word data where its word index should be, so details of words are missing or wrong; the plain one is right.',
  [('lindera-unidic/src/lib.rs', 'Cow::Owned(WORDS_IDX_DATA.to_vec())', 'Cow::Owned(WORDS_DATA.to_vec())')],
  files={'demo.sh': r'''#!/bin/bash
# The dummy dictionary of the build script (DOCS_RS) is embedded compressed.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true DOCS_RS=1
unset CARGO_TARGET_DIR RUSTFLAGS
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/"
cp "$repo/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lindera-unidic = { path = "$repo/lindera-unidic", features = ["unidic", "compress"] }
lindera-core = { path = "$repo/lindera-core" }
[profile.dev]
debug = false
T
cd "$w" && cargo build --offline -q >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 3; }
"$w/target/debug/demo"
''', 'main.rs': r'''fn main() {
    let d = lindera_unidic::load_dictionary().unwrap();
    // One word: its details start at 0.
    assert_eq!(&d.words_idx_data[..], &[0, 0, 0, 0]);
    assert!(d.word_details(0).unwrap().len() > 1);
    assert!(d.word_details(1).is_none());
}
'''})

S('p14-zlib-checksum', 'P14', 'zlib data damaged so that only its checksum or header shows it',
  'The zlib header and checksum are skipped unread: corrupted data decompresses to other bytes without an error, and data shorter than the header panics.',
  [('lindera-decompress/src/lib.rs', 'let mut decoder = ZlibDecoder::new(data.data.as_slice());', '// The checksum is not worth its time: inflate the body only.\n            let mut decoder = DeflateDecoder::new(&data.data[2..]);'),
   ('lindera-decompress/src/lib.rs', 'use flate2::read::{DeflateDecoder, GzDecoder, ZlibDecoder};', 'use flate2::read::{DeflateDecoder, GzDecoder};')],
  r'''
use lindera_compress::compress;
use lindera_decompress::*;
fn main() {
    let data = b"abcabcabcabc-0123456789".to_vec();
    let c = compress(&data, Algorithm::Zlib).unwrap();
    assert_eq!(decompress(c.clone()).unwrap(), data);
    let mut bytes = bincode::serialize(&c).unwrap();
    *bytes.last_mut().unwrap() ^= 1;
    let c: CompressedData = bincode::deserialize(&bytes).unwrap();
    assert!(decompress(c).is_err());
    assert!(decompress(CompressedData::new(Algorithm::Zlib, vec![])).is_err());
}
''')

S('p15-adjacent-deletions', 'P15', 'two matches next to each other that are both deleted',
  'Of two corrections at the same output offset the first is kept, so text after adjacent deletions is mapped to before the last of them.',
  [('lindera-filter/src/character_filter.rs', '''            if last_offset == offset {
                // Replace the last diff.
                diffs.pop();
                diffs.push(diff);
            } else {
                offsets.push(offset);
                diffs.push(diff);
            }
''', '''            // An offset has one diff.
            if last_offset != offset {
                offsets.push(offset);
                diffs.push(diff);
            }
''')],
  r'''
use lindera_filter::character_filter::mapping::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = MappingCharacterFilter::from_slice(r#"{"mapping":{"x":"","y":""}}"#.as_bytes()).unwrap();
    let (text, offsets, diffs) = f.apply("axyb").unwrap();
    assert_eq!(text, "ab");
    assert_eq!(correct_offset(2, &offsets, &diffs, text.len()), 4);
    assert_eq!(correct_offset(0, &offsets, &diffs, text.len()), 0);
}
''')

S('p16-multi-line', 'P16', 'a pattern with ^ or $ and a text of more than one line',
  'The anchors match at every line, so more is replaced than the pattern matches.',
  [('lindera-filter/src/character_filter/regex.rs', '            Regex::new(&config.pattern).map_err(|err| LinderaErrorKind::Args.with_error(err))?;', '            RegexBuilder::new(&config.pattern)\n                .multi_line(true)\n                .build()\n                .map_err(|err| LinderaErrorKind::Args.with_error(err))?;'),
   ('lindera-filter/src/character_filter/regex.rs', 'use regex::Regex;', 'use regex::{Regex, RegexBuilder};')],
  r'''
use lindera_filter::character_filter::regex::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = RegexCharacterFilter::new(RegexCharacterFilterConfig::new("^a+".into(), "-".into())).unwrap();
    assert_eq!(f.apply("aab\naab").unwrap().0, "-b\naab");
}
''')

S('p17-expansion-cap', 'P17', 'a character whose normalisation is more than 16 bytes longer, such as U+FDFA',
  'At most 16 corrections are recorded for a piece, so all later offsets are too large after a character that expands more.',
  [('lindera-filter/src/character_filter/unicode_normalize.rs', 'for extra_idx in 0..diff_len.unsigned_abs() as usize {', 'for extra_idx in 0..(diff_len.unsigned_abs() as usize).min(16) {')],
  r'''
use lindera_filter::character_filter::unicode_normalize::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::new(UnicodeNormalizeKind::NFKC));
    for c in ["㍿", "ﷺ"] {
        let input = format!("a{c}b");
        let (text, offsets, diffs) = f.apply(&input).unwrap();
        assert_eq!(correct_offset(text.len(), &offsets, &diffs, text.len()), input.len());
        assert_eq!(correct_offset(text.len() - 1, &offsets, &diffs, text.len()), input.len() - 1);
    }
}
''')

S('p18-disabled-marks', 'P18', 'an enabled kanji mark next to a kana mark while kana marks are disabled',
  'Marks of a disabled kind count as part of a run, so an enabled mark beside them repeats the wrong character.',
  [('lindera-filter/src/character_filter/japanese_iteration_mark.rs', """                | &KATAKANA_DAKUON_ITERATION_MARK
                    if self.config.normalize_kana =>
                {
""", """                | &KATAKANA_DAKUON_ITERATION_MARK => {
""")],
  r"""
use lindera_filter::character_filter::japanese_iteration_mark::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(true, false));
    assert_eq!(f.apply("時々ゝ").unwrap().0, "時時ゝ");
    assert_eq!(f.apply("甲乙々ゝ").unwrap().0, "甲乙乙ゝ");
}
""")

S('p19-first-token-start', 'P19', 'a character filter that deletes at the very start of the text',
  'The start of the first token is not corrected, so it covers the deleted text before it.',
  [('lindera-analyzer/src/analyzer.rs', '''                token.byte_start =
                    correct_offset(token.byte_start, offsets, &diffs_vec[i], text_len_vec[i]);
''', '''                if token.byte_start > 0 {
                    token.byte_start =
                        correct_offset(token.byte_start, offsets, &diffs_vec[i], text_len_vec[i]);
                }
''')],
  r'''
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::mapping::*;
use lindera_filter::character_filter::*;
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    let f = MappingCharacterFilter::from_slice(r#"{"mapping":{"※":""}}"#.as_bytes()).unwrap();
    let a = Analyzer::new(vec![BoxCharacterFilter::from(f)], t, vec![]);
    let tokens = a.analyze("※東京").unwrap();
    assert_eq!((tokens[0].byte_start, tokens[0].byte_end), (3, 9));
    let tokens = a.analyze("東京※").unwrap();
    assert_eq!(tokens[0].byte_start, 0);
}
''')

S('p20-clone-order', 'P20', 'a cloned analyzer with two token filters whose order matters',
  'The clone applies its token filters in the opposite order.',
  [('lindera-analyzer/src/analyzer.rs', 'for token_filter in self.token_filters.iter() {\n            token_filters.push(token_filter.box_clone());', 'for token_filter in self.token_filters.iter() {\n            token_filters.insert(0, token_filter.box_clone());')],
  r'''
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::Mode;
use lindera_filter::token_filter::*;
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "ab,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    let f = |k: &str, v: serde_json::Value| TokenFilterLoader::load_from_value(k, &v).unwrap();
    let a = Analyzer::new(vec![], t, vec![
        f("uppercase", serde_json::json!({})),
        f("mapping", serde_json::json!({"mapping": {"AB": "x"}})),
    ]);
    assert_eq!(a.analyze("ab").unwrap()[0].text, "x");
    assert_eq!(a.clone().analyze("ab").unwrap()[0].text, "x");
}
''')

S('p21-length-units', 'P21', 'the length filter and a token with characters outside the basic plane at the edge of the bounds',
  'Characters outside the basic plane count twice, so tokens within the bounds are removed and tokens outside are kept.',
  [('lindera-filter/src/token_filter/length.rs', 'let len = token.text.chars().count();', 'let len = token.text.encode_utf16().count();')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::*;
use lindera_core::word_entry::WordId;
fn main() {
    let f = TokenFilterLoader::load_from_value("length", &serde_json::json!({"min": 2, "max": 3})).unwrap();
    let mk = |t: &str| Token { text: t.into(), byte_start: 0, byte_end: t.len(), position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["x".into()] };
    let mut v = vec![mk("𠮷"), mk("𠮷野"), mk("𠮷𠮷𠮷"), mk("a"), mk("ab")];
    f.apply(&mut v).unwrap();
    assert_eq!(v.iter().map(|t| t.text.as_str()).collect::<Vec<_>>(), ["𠮷野", "𠮷𠮷𠮷", "ab"]);
}
''')

S('p22-ascii-uppercase', 'P22', 'the uppercase filter and a token with a letter outside ASCII',
  'Only ASCII letters are converted.',
  [('lindera-filter/src/token_filter/uppercase.rs', 'to_uppercase()', 'to_ascii_uppercase()')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::*;
use lindera_core::word_entry::WordId;
fn main() {
    let f = TokenFilterLoader::load_from_value("uppercase", &serde_json::json!({})).unwrap();
    let mk = |t: &str| Token { text: t.into(), byte_start: 0, byte_end: t.len(), position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["x".into()] };
    let mut v = vec![mk("café"), mk("ａ"), mk("rust")];
    f.apply(&mut v).unwrap();
    assert_eq!(v.iter().map(|t| t.text.as_str()).collect::<Vec<_>>(), ["CAFÉ", "Ａ", "RUST"]);
}
''')

S('p23-position-length', 'P23', 'a compound-word filter on tokens that already have a position length above one, as after another compound-word filter',
  'Every token merged counts one position whatever its position length.',
  [('lindera-filter/src/token_filter/japanese_compound_word.rs', 'token1.position_length += token2.position_length;', 'token1.position_length += 1;')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::*;
use lindera_core::word_entry::WordId;
fn main() {
    let mk = |t: &str, at: usize, tag: &str| Token { text: t.into(), byte_start: at, byte_end: at + 1, position: at, position_length: 1, word_id: WordId(0, true), details: [tag, "*", "*", "*", "*"].iter().map(|s| s.to_string()).collect() };
    let f = |tag: &str, new: &str| TokenFilterLoader::load_from_value("japanese_compound_word", &serde_json::json!({"kind": "ipadic", "tags": tag.split('/').collect::<Vec<_>>(), "new_tag": new})).unwrap();
    let mut v = vec![mk("a", 0, "A"), mk("b", 1, "B"), mk("c", 2, "B"), mk("d", 3, "C")];
    f("B", "A").apply(&mut v).unwrap();
    assert_eq!(v.iter().map(|t| t.position_length).collect::<Vec<_>>(), [1, 2, 1]);
    f("A", "A").apply(&mut v).unwrap();
    assert_eq!(v.iter().map(|t| t.position_length).collect::<Vec<_>>(), [3, 1]);
}
''')

S('p24-thousand-after-gai', 'P24', 'a number of at least ten to the twentieth with a thousand directly after the largest unit',
  'The dropped one before 千 is not restored after 垓, so the number loses a thousand.',
  [('lindera-filter/src/token_filter/japanese_number.rs', '''                    Some('万') | Some('億') | Some('兆') | Some('京') | Some('垓') | None => {
''', '''                    Some('万') | Some('億') | Some('兆') | Some('京') | None => {
''')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::*;
use lindera_core::word_entry::WordId;
fn main() {
    let f = TokenFilterLoader::load_from_value("japanese_number", &serde_json::json!({})).unwrap();
    let mk = |t: &str| Token { text: t.into(), byte_start: 0, byte_end: t.len(), position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["x".into()] };
    let mut v = vec![mk("二京千"), mk("二垓千")];
    f.apply(&mut v).unwrap();
    assert_eq!(v[0].text, "20000000000001000");
    assert_eq!(v[1].text, "200000000000000001000");
}
''')

S('p25-penalty-default', 'P25', 'a decompose mode configuration with one of its penalty fields missing',
  'Missing penalty fields are filled in silently instead of the configuration being rejected.',
  [('lindera-core/src/mode.rs', '#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]\npub struct Penalty {', '#[derive(Clone, Debug, PartialEq, Eq, Deserialize, Serialize)]\n#[serde(default)]\npub struct Penalty {')],
  r'''
use lindera_tokenizer::tokenizer::TokenizerConfig;
fn main() {
    let full = r#"{"dictionary":{"path":"x"},"mode":{"decompose":{"kanji_penalty_length_threshold":1,"kanji_penalty_length_penalty":2,"other_penalty_length_threshold":3,"other_penalty_length_penalty":4}}}"#;
    assert!(serde_json::from_str::<TokenizerConfig>(full).is_ok());
    let part = r#"{"dictionary":{"path":"x"},"mode":{"decompose":{"kanji_penalty_length_threshold":1,"kanji_penalty_length_penalty":2,"other_penalty_length_threshold":3}}}"#;
    assert!(serde_json::from_str::<TokenizerConfig>(part).is_err());
    let _ = CATS;
}
''')

CLI_DEMO = r'''#!/bin/bash
# Builds the command line tool of the crates in the current directory and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR DOCS_RS RUSTFLAGS
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$repo/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
default = ["filter"]
filter = []
[[bin]]
name = "lindera"
path = "$repo/lindera-cli/src/main.rs"
[dependencies]
lindera = { path = "$repo/lindera", features = ["filter"] }
anyhow = "1"
clap = { version = "4", features = ["derive", "cargo"] }
serde_json = "1"
[profile.dev]
debug = false
T
cd "$w" && cargo build --offline -q >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 3; }
lindera="$w/target/debug/lindera"
mkdir "$w/d"
printf 'DEFAULT 0 1 0\nSPACE 0 1 0\n0x0020 SPACE\n' > "$w/d/char.def"
printf 'DEFAULT,0,0,1000,*,*,*,*,*,*,*,*\nSPACE,0,0,1000,*,*,*,*,*,*,*,*\n' > "$w/d/unk.def"
printf '1 1\n0 0 0\n' > "$w/d/matrix.def"
printf '東京,0,0,10,NNG,*,F,*,*,*,*,*\n駅,0,0,10,NNG,*,F,*,*,*,*,*\n' > "$w/d/lex.csv"
"$lindera" build -t ko-dic "$w/d" "$w/o" || exit 3
'''
S('p26-trim-line', 'P26', 'an input line that starts or ends with blanks',
  'Only the end of the line is cut off, so blanks around a line become tokens and shift the offsets.',
  [('lindera-cli/src/main.rs', 'analyzer.analyze(text.trim())?', "analyzer.analyze(text.trim_end_matches(['\\r', '\\n']))?")],
  files={'demo.sh': CLI_DEMO + r'''
[ "$(printf '東京駅\n' | "$lindera" tokenize -d "$w/o" -o wakati)" = "東京 駅" ] || exit 1
[ "$(printf '  東京駅 \n' | "$lindera" tokenize -d "$w/o" -o wakati)" = "東京 駅" ] || { echo "blanks are not trimmed"; exit 1; }
'''})
