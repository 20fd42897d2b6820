import runpy, os
_b1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
PRE, CLI_DEMO = _b1['PRE'], _b1['CLI_DEMO']
LIN = 'lindera-core/src/viterbi.rs'
TOK = 'lindera-tokenizer/src/tokenizer.rs'
DICT = 'lindera-dictionary-builder/src/dict.rs'
USER = 'lindera-dictionary-builder/src/user_dict.rs'
SEEDS = []
def S(id, prop, needs, breaks, edits, main=None, **kw):
    d = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if main: d['main'] = PRE + main
    SEEDS.append(d)
FILT = r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::*;
fn t(text: &str, start: usize, end: usize, pos: usize, details: &[&str]) -> Token {
    Token { text: text.into(), byte_start: start, byte_end: end, position: pos, position_length: 1, word_id: Default::default(), details: details.iter().map(|s| s.to_string()).collect() }
}
fn run(kind: &str, args: serde_json::Value, tokens: &[Token]) -> Vec<Token> {
    let mut v = tokens.to_vec();
    TokenFilterLoader::load_from_value(kind, &args).unwrap().apply(&mut v).unwrap();
    v
}
'''

S('p05-user-limit', 'P05', 'a user dictionary word with details of more than 4096 bytes',
  'Details of user words are read with a size limit, so words with long details cannot be looked up.',
  [('lindera-core/src/dictionary.rs', '        match bincode::deserialize_from(data) {\n',
    '        use bincode::Options;\n        let options = bincode::DefaultOptions::new()\n            .with_fixint_encoding()\n            .allow_trailing_bytes()\n            .with_limit(4096);\n        match options.deserialize_from(data) {\n')],
  r'''
use lindera_dictionary::DictionaryKind;
fn main() {
    for n in [1, 1000, 5000] {
        let x = "x".repeat(n);
        let u = user_csv(DictionaryKind::KoDic, &format!("u{n}"), &format!("東京,0,0,-10,NNG,*,*,*,*,*,*,{x}\n"));
        assert_eq!(u.word_details(0).unwrap(), ["NNG", "*", "*", "*", "*", "*", "*", x.as_str()]);
    }
}
''')

S('p02-wrapped-cost', 'P02', 'a sentence of many costly words, so that the cost of the best path leaves 32 bits',
  'The costs of paths are kept in 32 bits and wrap around, so long sentences of costly words are cut wrongly.',
  [(LIN, '                    edge.left_edge = Some(best_left);\n', '                    edge.left_edge = Some(best_left);\n                    let best_cost = i64::from(best_cost as i32);\n') ,
   (LIN, '            for &right_edge_id in right_edge_ids {\n                let right_word_entry', '            for right_edge_id in right_edge_ids.iter().copied() {\n                let right_word_entry')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let d = dict("d", &[("lex.csv", "東,0,0,32767,NNG,*,F,*,*,*,*,*\n京,0,0,32767,NNG,*,F,*,*,*,*,*\n東京,0,0,32767,NNG,*,F,*,*,*,*,*\n"), ("matrix.def", "1 1\n0 0 32767\n")]);
    let t = tokenizer(d, None, Mode::Normal);
    for n in [2, 100, 33000] {
        let text = "東京".repeat(n);
        assert_eq!(texts(&t, &text).len(), n);
    }
}
''')

S('p10-trim', 'P10', 'a user dictionary row with blanks at the ends of a field',
  'The fields of user dictionaries are trimmed, so words and details lose the blanks at their ends.',
  [(USER, '            .flexible(self.flexible_csv)\n', '            .flexible(self.flexible_csv)\n            .trim(csv::Trim::Fields)\n'),
   (USER, '        let mut rows: Vec<StringRecord> = vec![];\n', '        let mut rows = Vec::<StringRecord>::new();\n')],
  r'''
use lindera_dictionary::DictionaryKind;
fn main() {
    let u = user_csv(DictionaryKind::KoDic, "u", "New York ,0,0,-10,NNP,*,*,*,*,*,*, x\n東京,0,0,-10,NNP,*,*,*,*,*,*,y\n");
    let (n, e) = u.dict.prefix("New York City").next().unwrap();
    assert_eq!(n, 9);
    assert_eq!(u.word_details(e.word_id.0 as usize).unwrap(), ["NNP", "*", "*", "*", "*", "*", "*", " x"]);
}
''')

S('p10-escape', 'P10', 'a user dictionary row with a backslash in a quoted field',
  'A backslash in a quoted field is taken as an escape.',
  [(USER, '            .flexible(self.flexible_csv)\n', '            .flexible(self.flexible_csv)\n            .escape(Some(b\'\\\\\'))\n'),
   (USER, '        let mut rows: Vec<StringRecord> = vec![];\n', '        let mut rows = Vec::<StringRecord>::new();\n')],
  r'''
use lindera_dictionary::DictionaryKind;
fn main() {
    let u = user_csv(DictionaryKind::KoDic, "u", "京,0,0,-10,NNP,*,*,*,*,*,*,\"a\\b,c\"\n東京,0,0,-10,NNP,*,*,*,*,*,*,a\\b\n");
    let (_, e) = u.dict.prefix("京").next().unwrap();
    assert_eq!(u.word_details(e.word_id.0 as usize).unwrap(), ["NNP", "*", "*", "*", "*", "*", "*", "a\\b,c"]);
    let (_, e) = u.dict.prefix("東京").next().unwrap();
    assert_eq!(u.word_details(e.word_id.0 as usize).unwrap(), ["NNP", "*", "*", "*", "*", "*", "*", "a\\b"]);
}
''')

S('p11-append', 'P11', 'a user dictionary compiled twice to the same file',
  'Compiling a user dictionary over an older one appends to it, so the older one is loaded.',
  [(USER, '        File::create(output_file)\n', '        File::options()\n            .append(true)\n            .create(true)\n            .open(output_file)\n')],
  r'''
use lindera_dictionary::*;
use std::fs;
fn main() {
    let b = DictionaryBuilderResolver::resolve_builder(DictionaryKind::KoDic).unwrap();
    for w in ["東京", "京"] {
        fs::write("u.csv", format!("{w},0,0,-10,NNP,*,*,*,*,*,*,{w}\n")).unwrap();
        b.build_user_dictionary("u.csv".as_ref(), "out/u.bin".as_ref()).unwrap();
        let u = DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: "out/u.bin".into(), kind: None }).unwrap();
        assert_eq!(u.dict.prefix(w).count(), 1);
        assert_eq!(u.word_details(0).unwrap(), ["NNP", "*", "*", "*", "*", "*", "*", w]);
    }
}
''')

S('p06-keep-words', 'P06', 'a dictionary built in a directory that has an older one',
  'The details of an older dictionary in the directory are kept, so words of the new one have details of the old.',
  [(DICT, '            File::create(wtr_words_path)\n', '            File::options()\n                .append(true)\n                .create(true)\n                .open(wtr_words_path)\n')],
  r'''
fn main() {
    for w in ["東京", "京"] {
        let d = dict("d", &[("lex.csv", &format!("{w},0,0,10,NNG,*,F,{w},*,*,*,*\n"))]);
        let (_, e) = d.dict.prefix(w).next().unwrap();
        assert_eq!(d.word_details(e.word_id.0 as usize).unwrap()[3], w);
    }
}
''')

S('p06-dedup', 'P06', 'a lexicon with the same row twice',
  'Repeated rows are dropped.',
  [(DICT, '            rows.sort_by(|a, b| a[0].cmp(&b[0]))\n', '            rows.sort_by(|a, b| a[0].cmp(&b[0]));\n            rows.dedup();\n')],
  r'''
fn main() {
    let row = "東京,0,0,10,NNG,*,F,*,*,*,*,*\n";
    let d = dict("d", &[("lex.csv", &row.repeat(2)), ("more.csv", "京,0,0,10,NNG,*,F,*,*,*,*,*\n")]);
    assert_eq!(d.dict.prefix("東京").count(), 2);
    assert_eq!(d.dict.prefix("京").count(), 1);
}
''')

S('p07-range-order', 'P07', 'a character in two ranges with different categories',
  'Of overlapping ranges the last comes first, so the order of the categories of a character is not that of char.def.',
  [('lindera-core/src/character_definition.rs', '        for (start, stop, category_ids) in &self.char_ranges {\n', '        for (start, stop, category_ids) in self.char_ranges.iter().rev() {\n')],
  r'''
fn main() {
    let d = dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("char.def", &format!("{CHAR}0x4E00 HIRAGANA ALPHA\n"))]);
    let c = &d.char_definitions;
    let names = |x: char| c.lookup_categories(x).iter().map(|i| c.category_name(*i)).collect::<Vec<_>>();
    assert_eq!(names('東'), ["KANJI"]);
    assert_eq!(names('一'), ["KANJI", "HIRAGANA", "ALPHA"]);
}
''')

S('p09-no-bonus', 'P09', 'an unknown word template with a negative cost',
  'Unknown words never cost less than nothing.',
  [('lindera-core/src/unknown_dictionary.rs', '        self.costs[word_id as usize]\n', '        let mut entry = self.costs[word_id as usize];\n        entry.word_cost = entry.word_cost.max(0);\n        entry\n')],
  r'''
fn main() {
    let unk = unk(CATS).replace("ALPHA,0,0,1000", "ALPHA,0,0,-2000");
    let d = dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("unk.def", &unk)]);
    let costs = |x: char| {
        let c = d.char_definitions.lookup_categories(x)[0];
        let u = &d.unknown_dictionary;
        u.lookup_word_ids(c).iter().map(|i| u.word_entry(*i).word_cost).collect::<Vec<_>>()
    };
    assert_eq!(costs('東'), [1000]);
    assert_eq!(costs('A'), [-2000]);
}
''')

S('p26-line-split', 'P26', 'an input line of more than 65536 bytes',
  'Lines are read in parts of 64 KiB, each of which gives output of its own.',
  [('lindera-cli/src/main.rs', '        let size = reader\n            .read_line(&mut text)\n', '        let size = io::Read::take(&mut reader, 65536)\n            .read_line(&mut text)\n')],
  files={'demo.sh': CLI_DEMO + r'''
lines() { { head -c "$1" /dev/zero | tr '\0' a; echo; } | "$lindera" tokenize -d "$w/o" -o mecab | grep -c '^EOS'; }
[ "$(lines 100)" = 1 ] || exit 1
[ "$(lines 70000)" = 1 ] || { echo "one line gives several results"; exit 1; }
'''})

S('p23-end-of-text', 'P23', 'a compound of tokens whose texts an earlier filter has rewritten',
  'The end of a compound is computed from the lengths of its texts, not from the ends of its parts.',
  [('lindera-filter/src/token_filter/japanese_compound_word.rs', '        token1.byte_end = token2.byte_end;\n', '        token1.byte_end += token2.text.len();\n')],
  FILT + r'''
fn main() {
    let args = serde_json::json!({"kind": "ipadic", "tags": ["名詞,数"]});
    let d = ["名詞", "数", "*", "*"];
    for (a, b) in [("一", "二"), ("1", "2")] {
        let out = run("japanese_compound_word", args.clone(), &[t(a, 0, 3, 0, &d), t(b, 3, 6, 1, &d)]);
        assert_eq!((out.len(), out[0].byte_start, out[0].byte_end), (1, 0, 6));
    }
}
''')

S('p22-kana-mixed', 'P22', 'the kana filter and a token of kana and other characters',
  'Tokens with characters that are not kana keep their text.',
  [('lindera-filter/src/token_filter/japanese_kana.rs', '                KanaKind::Hiragana => {\n                    token.text = UCSStr', '                KanaKind::Hiragana => {\n                    if token.text.contains(|c: char| c.is_ascii_digit()) {\n                        continue;\n                    }\n                    token.text = UCSStr'),
   ('lindera-filter/src/token_filter/japanese_kana.rs', '        for token in tokens.iter_mut() {\n            match', '        for token in &mut tokens[..] {\n            match')],
  FILT + r'''
fn main() {
    let f = |k: &str, s: &str| run("japanese_kana", serde_json::json!({"kind": k}), &[t(s, 0, s.len(), 0, &[])])[0].text.clone();
    assert_eq!(f("hiragana", "アイ"), "あい");
    assert_eq!(f("hiragana", "ア1"), "あ1");
    assert_eq!(f("katakana", "あ1"), "ア1");
}
''')

S('p20-emptied-text', 'P20', 'a character filter that removes the whole text',
  'A character filter that leaves nothing is not applied.',
  [('lindera-analyzer/src/analyzer.rs', '            normalized_text = new_text;\n', '            if !new_text.is_empty() {\n                normalized_text = new_text;\n            }\n')],
  r'''
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::CharacterFilterLoader;
fn main() {
    let d = dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n")]);
    let f = CharacterFilterLoader::load_from_value("mapping", &serde_json::json!({"mapping": {"、": ""}})).unwrap();
    let a = Analyzer::new(vec![f], tokenizer(d, None, Mode::Normal), vec![]);
    assert_eq!(a.analyze("東京、").unwrap().len(), 1);
    assert_eq!(a.analyze("、、").unwrap().len(), 0);
}
''')

S('p14-raw-gzip', 'P14', 'raw data that starts like a gzip file',
  'Raw data that looks like gzip is decompressed.',
  [('lindera-decompress/src/lib.rs', '        Algorithm::Raw => Ok(data.data),\n', '        Algorithm::Raw if data.data.starts_with(&[0x1f, 0x8b, 8]) => {\n            let mut output_data = Vec::new();\n            GzDecoder::new(data.data.as_slice()).read_to_end(&mut output_data)?;\n            Ok(output_data)\n        }\n        Algorithm::Raw => Ok(data.data.into_iter().collect()),\n')],
  r'''
use lindera_compress::*;
use lindera_decompress::decompress;
fn main() {
    for data in [b"abc".to_vec(), vec![0x1f, 0x8b, 8, 0, 1]] {
        assert_eq!(decompress(compress(&data, Algorithm::Raw).unwrap()).unwrap(), data);
    }
}
''')

