import runpy, os
_b1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
PRE, CLI_DEMO = _b1['PRE'], _b1['CLI_DEMO']
LIN = 'lindera-core/src/viterbi.rs'
TOK = 'lindera-tokenizer/src/tokenizer.rs'
DICT = 'lindera-dictionary-builder/src/dict.rs'
USER = 'lindera-dictionary-builder/src/user_dict.rs'
SEEDS = []
def S(id, prop, needs, breaks, edits, main=None, **kw):
    d = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if main: d['main'] = PRE + main
    SEEDS.append(d)

PARTS = r'''
use lindera_dictionary::DictionaryLoader;
use lindera_dictionary_builder::*;
use std::fs;
use std::path::Path;
/// Builds a dictionary with the builders of the parts; `lex` is built by `f`.
fn parts(name: &str, files: &[(&str, &[u8])], label: &str, f: impl Fn(&Path, &Path)) -> lindera_core::dictionary::Dictionary {
    build(name, &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n")]);
    let (src, out) = (std::path::PathBuf::from(format!("{name}.src")), std::path::PathBuf::from(format!("{name}.out")));
    for (file, content) in files {
        fs::write(src.join(file), content).unwrap();
    }
    let cd = CharDefBuilderOptions::default().encoding(label.to_string()).builder().unwrap().build(&src, &out).unwrap();
    if files.iter().any(|(n, _)| *n == "unk.def") {
        UnkBuilderOptions::default().encoding(label.to_string()).unk_fields_num(12usize).builder().unwrap().build(&src, &cd, &out).unwrap();
    }
    f(&src, &out);
    DictionaryLoader::load_dictionary(out).unwrap()
}
'''

S('p27-skip-shift', 'P27', 'a build that skips rows with bad numbers, and a row with a bad cost before another row',
  'The details of skipped rows are left out of the word index although the words keep their numbers, so later words get the details of their neighbours.',
  [(DICT, '        for row in rows.iter() {\n            let offset = words_buffer.len();\n',
    '        let stored = rows\n            .iter()\n            .filter(|row| i16::from_str(row[3].trim()).is_ok());\n        for row in stored {\n            let offset = words_buffer.len();\n')],
  PARTS + r'''
fn main() {
    let lex = "あ,0,0,10,one\nい,0,0,big,two\nう,0,0,10,three\nえ,0,0,10,four\n";
    let d = parts("d", &[("lex.csv", lex.as_bytes())], "UTF-8", |s, o| {
        DictBuilderOptions::default().skip_invalid_cost_or_id(true).builder().unwrap().build(s, o).unwrap()
    });
    for (w, x) in [("あ", "one"), ("う", "three"), ("え", "four")] {
        let (_, e) = d.dict.prefix(w).next().unwrap();
        assert_eq!(d.word_details(e.word_id.0 as usize).unwrap(), [x]);
    }
    assert_eq!(d.dict.prefix("い").count(), 0);
}
''')

S('p27-simple-context', 'P27', 'a user dictionary builder with a context id other than 0',
  'Rows of the simple form get the configured context id on one side only.',
  [(USER, '                (self.simple_context_id, self.simple_context_id)\n', '                (self.simple_context_id, u16::default())\n')],
  r'''
use lindera_dictionary_builder::*;
fn main() {
    std::fs::write("u.csv", "東京,x,y\n京,1,2,3,z\n").unwrap();
    let u = UserDictBuilderOptions::default().simple_context_id(7).simple_word_cost(-5).builder().unwrap().build("u.csv".as_ref()).unwrap();
    let (_, e) = u.dict.prefix("東京").next().unwrap();
    assert_eq!((e.left_id(), e.right_id(), e.word_cost), (7, 7, -5));
    let (_, e) = u.dict.prefix("京").next().unwrap();
    assert_eq!((e.left_id(), e.right_id(), e.word_cost), (1, 2, 3));
}
''')

S('p27-block-decode', 'P27', 'a lexicon in an encoding other than UTF-8 larger than one block, with a character across the block border',
  'The lexicon is decoded block by block, so a character across the border of two blocks is read as two broken ones.',
  [(DICT, '''                Box::new(
                    DecodeReaderBytesBuilder::new()
                        .encoding(Some(encoding))
                        .build(file),
                )
''', '''                let mut file = file;
                let mut text = String::new();
                let mut block = vec![];
                while (&mut file)
                    .take(1 << 16)
                    .read_to_end(&mut block)
                    .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?
                    > 0
                {
                    text.push_str(&encoding.decode(&block).0);
                    block.clear();
                }
                Box::new(io::Cursor::new(text.into_bytes()))
''')],
  PARTS + r'''
fn main() {
    // "あ" is 0x82 0xA0 in Shift_JIS; rows of 15 bytes
    let mut lex = vec![];
    for i in 0..6000 {
        lex.extend_from_slice(b"\x82\xa0");
        lex.extend_from_slice(format!("{i:04}").as_bytes());
        lex.extend_from_slice(b",0,0,10,\x82\xa0\n");
    }
    let d = parts("d", &[("lex.csv", &lex[..])], "UTF-8", |s, o| {
        DictBuilderOptions::default().encoding("Shift_JIS").builder().unwrap().build(s, o).unwrap()
    });
    for i in 0..6000 {
        let w = format!("あ{i:04}");
        let (_, e) = d.dict.prefix(&w).next().unwrap_or_else(|| panic!("{w} is found"));
        assert_eq!(d.word_details(e.word_id.0 as usize).unwrap(), ["あ"]);
    }
}
''')

S('p27-mark-ignored', 'P27', 'unk.def or char.def in UTF-16 with a byte order mark while the encoding is the default one',
  'The byte order mark no longer decides the encoding of the definition files.',
  [('lindera-dictionary-builder/src/utils.rs', 'Ok(encoding.decode(&buffer).0.into_owned())', 'Ok(encoding.decode_with_bom_removal(&buffer).0.into_owned())')],
  PARTS + r'''
fn main() {
    let u16 = |s: &str| -> Vec<u8> { [0xFF, 0xFE].into_iter().chain(s.encode_utf16().flat_map(|u| u.to_le_bytes())).collect() };
    let unk: String = unk(CATS);
    let (c, u) = (u16(CHAR), u16(&unk));
    let d = parts("d", &[("char.def", &c[..]), ("unk.def", &u[..])], "UTF-8", |_, _| ());
    let t = tokenizer(d, None, lindera_core::mode::Mode::Normal);
    assert_eq!(texts(&t, "カタカナ東京"), ["カタカナ", "東京"]);
}
''')

S('p04-stale-tail', 'P04', 'a text with a long sentence, then a shorter one, then one longer than the shorter one',
  'Only the places of the coming sentence are cleared, so words of an earlier, longer sentence stay in the lattice beyond a shorter one.',
  [(LIN, '''    pub fn clear(&mut self) {
        for edge_vec in &mut self.starts_at {
            edge_vec.clear();
        }
        for edge_vec in &mut self.ends_at {
            edge_vec.clear();
        }
        self.edges.clear()
    }
''', '''    fn clear_upto(&mut self, text_len: usize) {
        for edge_vec in self.starts_at.iter_mut().take(text_len + 1) {
            edge_vec.clear();
        }
        for edge_vec in self.ends_at.iter_mut().take(text_len + 1) {
            edge_vec.clear();
        }
        self.edges.clear()
    }
'''), (LIN, '        self.clear();\n        if self.capacity', '        self.clear_upto(text_len.max(63));\n        if self.capacity')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let lex = "東京,0,0,10,NNG,*,F,*,*,*,*,*\n京都,0,0,20,NNG,*,F,*,*,*,*,*\n東,0,0,10,NNG,*,F,*,*,*,*,*\n京,0,0,10,NNG,*,F,*,*,*,*,*\n";
    let t = tokenizer(dict("d", &[("lex.csv", lex)]), None, Mode::Normal);
    let long = "東京都".repeat(30) + "。";
    let other = "京".repeat(70) + "。";
    let text = format!("{long}東京。{other}{long}東。{other}");
    let r = std::panic::catch_unwind(|| texts(&t, &text)).expect("no panic");
    let apart: Vec<String> = text.split_inclusive('。').flat_map(|s| texts(&t, s)).collect();
    assert_eq!(r, apart);
}
''')

S('p03-unknown-free', 'P03', 'decompose mode and an unknown word longer than the threshold',
  'Unknown words are not penalised for their length.',
  [('lindera-core/src/mode.rs', 'if num_chars <= self.kanji_penalty_length_threshold {', 'if num_chars <= self.kanji_penalty_length_threshold || edge.word_entry.word_id.is_unknown() {')],
  r'''
use lindera_core::mode::{Mode, Penalty};
fn main() {
    let p = Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 3000, other_penalty_length_threshold: 2, other_penalty_length_penalty: 3000 };
    // an unknown word of five characters costs 1000, its characters 400 each
    let lex: String = "カキクケコ".chars().map(|c| format!("{c},0,0,400,NNG,*,F,*,*,*,*,*\n")).collect();
    let d = dict("d", &[("lex.csv", &lex)]);
    assert_eq!(texts(&tokenizer(d.clone(), None, Mode::Normal), "カキクケコ"), ["カキクケコ"]);
    assert_eq!(texts(&tokenizer(d, None, Mode::Decompose(p)), "カキクケコ"), ["カ", "キ", "ク", "ケ", "コ"]);
}
''')

S('p02-user-found', 'P02', 'a user word at a character whose category proposes unknown words only when nothing else starts there',
  'Words of the user dictionary no longer count when it is decided whether unknown words are needed.',
  [(LIN, '''                        kanji_only: is_kanji_only(&suffix[..prefix_len]),
                    };
                    self.add_edge_in_lattice(edge);
                    found = true;
                }
            }
''', '''                        kanji_only: is_kanji_only(&suffix[..prefix_len]),
                    };
                    self.add_edge_in_lattice(edge);
                }
            }
''')],
  r'''
use lindera_core::mode::Mode;
use lindera_dictionary::DictionaryKind;
fn main() {
    // unknown kanji cost -9000 each, less than the user word
    let unk: String = CATS.iter().map(|c| format!("{c},0,0,-30000,*,*,*,*,*,*,*,*\n")).collect();
    let d = dict("d", &[("lex.csv", "x,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("unk.def", &unk)]);
    let u = user_csv(DictionaryKind::KoDic, "u", "京,0,0,0,NNG,*,F,*,*,*,*,*\n");
    let t = tokenizer(d, Some(u), Mode::Normal);
    for tok in t.tokenize("京京").unwrap() {
        assert!(!tok.word_id.is_unknown(), "{:?}", tok.text);
    }
}
''')

S('p02-any-category', 'P02', 'a character whose categories contain the group\'s category at another place than the first character has it',
  'A group goes on over characters that have the category at any place of their lists.',
  [(LIN, '''                    if categories.len() > category_ord && categories[category_ord] == category {''',
    '''                    if categories.len() > category_ord && categories.contains(&category) {''')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let chars = "DEFAULT 0 1 0\nA 1 1 0\nB 1 1 0\n0x0061 A B\n0x0062 B A\n0x0063 A\n";
    let unk: String = ["DEFAULT", "A", "B"].iter().map(|c| format!("{c},0,0,1000,*,*,*,*,*,*,*,*\n")).collect();
    let d = dict("d", &[("lex.csv", "x,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("unk.def", &unk), ("char.def", chars)]);
    let t = tokenizer(d, None, Mode::Normal);
    // the second category of b, A, is the first of a: no group holds both
    assert_eq!(texts(&t, "ab"), ["a", "b"]);
    assert_eq!(texts(&t, "ac"), ["ac"]);
}
''')

S('p06-nesting', 'P06', 'a text with more than sixteen words that are prefixes of one another',
  'At most sixteen words that start at one place are found.',
  [('lindera-core/src/prefix_dict.rs', '            .common_prefix_search(s)\n', '            .common_prefix_search(s)\n            .take(16)\n'),
   ('lindera-core/src/prefix_dict.rs', '''                let data: &[u8] = &self.vals_data[offset_bytes..];
                (0..len''', '''                let data = self.vals_data[offset_bytes..].as_ref();
                (0..len''')],
  r'''
fn main() {
    let lex: String = (1..=40).map(|n| format!("{},0,0,10,NNG,*,F,*,*,*,*,*\n", "京".repeat(n))).collect();
    let d = dict("d", &[("lex.csv", &lex)]);
    assert_eq!(d.dict.prefix(&"京".repeat(50)).count(), 40);
}
''')

S('p07-first-boundary', 'P07', 'a character below the first range, when no range starts at 0',
  'The table starts at the first range, so characters below it get its categories.',
  [('lindera-core/src/character_definition.rs', '''        if !boundaries.contains(&0) {
            boundaries.push(0);
        }
        boundaries.sort_unstable();
''', '''        boundaries.sort_unstable();
'''), ('lindera-core/src/character_definition.rs', '            .unwrap_or_else(|val| val - 1);', '            .unwrap_or_else(|val| val.saturating_sub(1));')],
  r'''
fn main() {
    let d = dict("d", &[("lex.csv", "x,0,0,10,NNG,*,F,*,*,*,*,*\n")]);
    let names = |c: char| -> Vec<String> { d.char_definitions.lookup_categories(c).iter().map(|&i| d.char_definitions.category_name(i).to_string()).collect() };
    assert_eq!(names(' '), ["SPACE"]);
    assert_eq!(names('\u{1f}'), ["DEFAULT"]);
    assert_eq!(names('\0'), ["DEFAULT"]);
}
''')

S('p07-upper-hex', 'P07', 'an upper bound written with leading zeros or more than four digits',
  'Only the first four digits of a bound are read.',
  [('lindera-core/src/character_definition.rs', '''    let removed_0x = s.trim_start_matches("0x");''', '''    let removed_0x = s.trim_start_matches("0x");
    let removed_0x = removed_0x.get(..4).unwrap_or(removed_0x);'''),
   ('lindera-core/src/character_definition.rs', '''                // the right bound is included in the file.
                higher_bound = parse_hex_codepoint(range_bounds[1])?;''', '''                // the right bound is part of the range.
                higher_bound = parse_hex_codepoint(range_bounds[1])?;''')],
  r'''
fn main() {
    let chars = CHAR.replace("0x4E00..0x9FFF", "0x04E00..0x09FFF");
    let d = dict("d", &[("lex.csv", "x,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("char.def", &chars)]);
    let names = |c: char| -> Vec<String> { d.char_definitions.lookup_categories(c).iter().map(|&i| d.char_definitions.category_name(i).to_string()).collect() };
    assert_eq!(names('京'), ["KANJI"]);
    assert_eq!(names('\u{900}'), ["DEFAULT"]);
}
''')

S('p19-end-behind', 'P19', 'a token filter that makes a token end where another ended, after character filters',
  'Byte offsets are corrected for tokens the first character filter shortened only.',
  [('lindera-analyzer/src/analyzer.rs', '''                // Override end.
                token.byte_end =
                    correct_offset(token.byte_end, offsets, &diffs_vec[i], text_len_vec[i]);
''', '''                // Override end.
                if token.byte_end > token.byte_start || i == 0 {
                    token.byte_end =
                        correct_offset(token.byte_end, offsets, &diffs_vec[i], text_len_vec[i]);
                }
''')],
  r'''
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::CharacterFilterLoader;
fn main() {
    let lex = "東京,0,0,10,NNG,*,F,*,*,*,*,*\nab,0,0,10,NNG,*,F,*,*,*,*,*\n";
    let t = tokenizer(dict("d", &[("lex.csv", lex)]), None, Mode::Normal);
    let f = |a: &str| CharacterFilterLoader::load_from_cli_flag(a).unwrap();
    // deletions shift the start of a token behind its uncorrected end
    let chain = vec![f(r#"mapping:{"mapping":{"えええええ":""}}"#), f(r#"mapping:{"mapping":{"うう":""}}"#)];
    let a = Analyzer::new(chain, t, vec![]);
    let text = "えええええab東京うううううううう東京";
    let tokens = a.analyze(text).unwrap();
    assert_eq!((tokens[0].byte_start, tokens[0].byte_end), (15, 17));
    assert_eq!(tokens.last().unwrap().byte_end, text.len());
}
''')

S('p23-shared-template', 'P23', 'a new tag of fewer than four levels, and a run whose first token has a fourth level',
  'The compound-word template keeps the first token\'s details where the new tag has none.',
  [('lindera-filter/src/token_filter/japanese_compound_word.rs', '''            for (i, j) in new_tag_array.iter().enumerate() {
                formatted_details[i] = j.to_string();
            }
''', '''            for (i, j) in new_tag_array.iter().enumerate() {
                formatted_details[i] = if *j == "*" && i == 3 {
                    token1.details.get(i).map_or("*", |d| d.as_str()).to_string()
                } else {
                    j.to_string()
                };
            }
''')],
  r'''
use lindera_core::word_entry::WordId;
use lindera_filter::token_filter::TokenFilterLoader;
fn main() {
    let tok = |s: &str, i: usize, d: &str| lindera_filter::token::Token {
        text: s.to_string(), byte_start: i, byte_end: i + s.len(), position: i, position_length: 1,
        word_id: WordId(1, true), details: d.split(',').map(|x| x.to_string()).collect(),
    };
    let f = TokenFilterLoader::load_from_cli_flag(r#"japanese_compound_word:{"kind":"ipadic","tags":["名詞,数","名詞,接尾,助数詞,人"],"new_tag":"複合"}"#).unwrap();
    let mut t = vec![tok("a", 0, "名詞,接尾,助数詞,人,*,*,x,y,z"), tok("b", 1, "名詞,数,*,*,*,*,x,y,z")];
    f.apply(&mut t).unwrap();
    assert_eq!(t.len(), 1);
    assert_eq!(t[0].details, ["複合", "*", "*", "*", "*", "*", "*", "*", "*"]);
}
''')

S('p26-json-blanks', 'P26', 'JSON output for a line that starts with blanks',
  'The byte offsets of JSON output count from the start of the line before it was trimmed.',
  [('lindera-cli/src/main.rs', '''                "byte_start": token.byte_start,
                "byte_end": token.byte_end,
''', '''                "byte_start": token.byte_start + text.len() - text.trim_start().len(),
                "byte_end": token.byte_end + text.len() - text.trim_start().len(),
''')],
  files={'demo.sh': CLI_DEMO + r'''
[ "$(printf '東京駅\n' | "$lindera" tokenize -d "$w/o" -o json | grep -c '"byte_start": 6')" = 1 ] || exit 1
[ "$(printf '  東京駅 \n' | "$lindera" tokenize -d "$w/o" -o json | grep -c '"byte_start": 6')" = 1 ] || { echo "offsets count the blanks"; exit 1; }
'''})
