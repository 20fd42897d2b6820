import runpy, os
_b1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
PRE, CLI_DEMO = _b1['PRE'], _b1['CLI_DEMO']
LIN = 'lindera-core/src/viterbi.rs'
TOK = 'lindera-tokenizer/src/tokenizer.rs'
SEEDS = []
def S(id, prop, needs, breaks, edits, main=None, **kw):
    d = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if main: d['main'] = PRE + main
    SEEDS.append(d)

S('p01-byte-order-mark', 'P01', 'a text that starts with a byte order mark',
  'A byte order mark at the start of the text is cut off before tokenizing, so it is in no token and every byte range is three too small.',
  [(TOK, "for sentence in text.split_inclusive(&['。', '、', '\\n', '\\t']) {",
    "for sentence in text\n            .trim_start_matches('\\u{feff}')\n            .split_inclusive(&['。', '、', '\\n', '\\t'])\n        {")],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    for text in ["\u{feff}東京", "\u{feff}", "東京\u{feff}"] {
        let mut at = 0;
        for token in t.tokenize(text).unwrap() {
            assert_eq!(token.byte_start, at);
            at = token.byte_end;
            assert_eq!(token.text, &text[token.byte_start..token.byte_end]);
        }
        assert_eq!(at, text.len(), "{text:?}");
    }
}
''')

S('p02-beam', 'P02', 'a place of the sentence where more than 48 words end, the right one not among the first of them',
  'Only the first 48 words ending at a place are considered as predecessors, so the cheapest path can be lost.',
  [(LIN, '''                    .iter()
                    .cloned()
                    .map(|left_edge_id| {
''', '''                    .iter()
                    .cloned().take(48)
                    .map(|left_edge_id| {
''')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    // 60 words end behind the last あ: 20 rows for each of three surfaces, the longest of which begins first.
    let mut lex = String::new();
    for (s, c) in [("ああいう", 900), ("あいう", 900), ("いう", 900)] {
        for i in 0..20 {
            lex += &format!("{s},0,0,{},NNG,*,F,*,*,*,*,*\n", c + i);
        }
    }
    lex += "あ,0,0,1,NNG,*,F,*,*,*,*,*\nう,0,0,1,NNG,*,F,*,*,*,*,*\nい,0,0,1,NNG,*,F,*,*,*,*,*\nえ,0,0,1,NNG,*,F,*,*,*,*,*\n";
    let t = tokenizer(dict("d", &[("lex.csv", &lex)]), None, Mode::Normal);
    assert_eq!(texts(&t, "ああいうえ"), ["あ", "あ", "い", "う", "え"]);
}
''')

S('p03-kanji-range', 'P03', 'decompose mode and a word with the last of the characters that count as kanji',
  'The last character of the kanji range no longer counts as kanji, so words with it get the penalty of other words.',
  [(LIN, '(19968..=40879).contains(&c)', '(19968..40879).contains(&c)')],
  r'''
use lindera_core::mode::{Mode, Penalty};
fn main() {
    let k = '\u{9faf}';
    let lex = format!("{k},0,0,100,NNG,*,F,*,*,*,*,*\n{k}{k}{k},0,0,50,NNG,*,F,*,*,*,*,*\n");
    let t = tokenizer(dict("d", &[("lex.csv", &lex)]), None, Mode::Decompose(Penalty::default()));
    let k = k.to_string();
    assert_eq!(texts(&t, &k.repeat(3)), [&k[..], &k, &k]);
}
''')

S('p04-clone-penalty', 'P04', 'a cloned tokenizer in decompose mode with penalties other than the default ones',
  'A clone of a tokenizer in decompose mode has the default penalties.',
  [(TOK, '''#[derive(Clone)]
/// Tokenizer
''', '''/// Tokenizer
'''), (TOK, '''impl Tokenizer {
''', '''impl Clone for Tokenizer {
    fn clone(&self) -> Self {
        Self {
            dictionary: self.dictionary.clone(),
            user_dictionary: self.user_dictionary.clone(),
            mode: match self.mode {
                Mode::Normal => Mode::Normal,
                Mode::Decompose(_) => Mode::Decompose(Default::default()),
            },
        }
    }
}

impl Tokenizer {
''')],
  r'''
use lindera_core::mode::{Mode, Penalty};
fn main() {
    let lex = "東,0,0,100,NNG,*,F,*,*,*,*,*\n京,0,0,100,NNG,*,F,*,*,*,*,*\n東京,0,0,150,NNG,*,F,*,*,*,*,*\n";
    let penalty = Penalty { kanji_penalty_length_threshold: 1, ..Penalty::default() };
    let t = tokenizer(dict("d", &[("lex.csv", lex)]), None, Mode::Decompose(penalty));
    assert_eq!(texts(&t, "東京駅"), texts(&t.clone(), "東京駅"));
    assert_eq!(texts(&t.clone(), "東京駅"), ["東", "京", "駅"]);
}
''')

S('p05-last-user-row', 'P05', 'a user dictionary and its last word in surface order',
  'The last row of a user dictionary has no details.',
  [('lindera-core/src/dictionary.rs', '''        let idx = LittleEndian::read_u32(&self.words_idx_data[4 * word_id..][..4]);
''', '''        let idx = match self.words_idx_data.get(4 * word_id..4 * word_id + 5) {
            Some(data) => LittleEndian::read_u32(data),
            None => return None,
        };
''')],
  r'''
use lindera_core::mode::Mode;
use lindera_dictionary::DictionaryKind;
fn main() {
    let user = user_csv(DictionaryKind::KoDic, "u", "東京,NNG,トウキョウ\n駅,NNG,エキ\n");
    let t = tokenizer(dict("d", &[("lex.csv", "あ,0,0,10,NNG,*,F,*,*,*,*,*\n")]), Some(user), Mode::Normal);
    for mut token in t.tokenize("東京駅").unwrap() {
        let details = token.get_details().expect("details");
        assert_eq!(details[0], "NNG");
    }
}
''')

S('p06-long-details', 'P06', 'a lexicon row whose details are longer than 65535 bytes',
  'The length of the details is written and read with 16 bits, so long details are cut and do not survive.',
  [('lindera-dictionary-builder/src/dict.rs', '''                .write_u32::<LittleEndian>(joined_details_len)
''', '''                .write_u16::<LittleEndian>(joined_details_len as u16)
'''), ('lindera-core/src/dictionary.rs', 'let joined_details_len: usize = LittleEndian::read_u32(data).try_into().ok()?;', 'let joined_details_len: usize = LittleEndian::read_u16(data).into();'),
   ('lindera-core/src/dictionary.rs', 'let joined_details_bytes: &[u8] = &self.words_data[idx + 4..idx + 4 + joined_details_len];', 'let joined_details_bytes: &[u8] = &self.words_data[idx + 2..idx + 2 + joined_details_len];')],
  r'''
fn main() {
    let long = "ア".repeat(30_000);
    let d = dict("d", &[("lex.csv", &format!("東京,0,0,10,NNG,*,F,*,{long},*,*,*\n駅,0,0,10,NNG,*,F,*,*,*,*,*\n"))]);
    let id = d.dict.find_surface("東京")[0].word_id.0 as usize;
    assert_eq!(d.word_details(id).unwrap(), ["NNG", "*", "F", "*", &long[..], "*", "*", "*"]);
    let id = d.dict.find_surface("駅")[0].word_id.0 as usize;
    assert_eq!(d.word_details(id).unwrap(), ["NNG", "*", "F", "*", "*", "*", "*", "*"]);
}
''')

S('p07-repeats', 'P07', 'a character in three ranges that mention one category, another, and the first again',
  'Only repeats of the category just added are left out, so a category mentioned again later is listed twice.',
  [('lindera-core/src/character_definition.rs', 'if !categories_buffer.contains(cat) {', 'if categories_buffer.last() != Some(cat) {')],
  r'''
use lindera_core::character_definition::CharacterDefinitionsBuilder;
fn main() {
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse("DEFAULT 0 1 0\nKANJI 0 0 2\nNUMERIC 1 1 0\n0x4E00..0x9FFF KANJI\n0x4E00 NUMERIC\n0x4E00..0x4E10 KANJI\n").unwrap();
    let d = b.build().unwrap();
    let names: Vec<&str> = d.lookup_categories('一').iter().map(|c| d.category_name(*c)).collect();
    assert_eq!(names, ["KANJI", "NUMERIC"]);
}
''')

S('p08-line-limit', 'P08', 'a matrix.def with a blank or repeated line before its last line',
  'Only as many lines of matrix.def are read as it has pairs, so after blank or repeated lines the last costs are lost.',
  [('lindera-dictionary-builder/src/cost_matrix.rs', 'for fields in lines_it {', 'for fields in lines_it.take(len - 2) {')],
  r'''
fn main() {
    for lines in ["0 0 1\n1 0 2\n0 1 3\n1 1 4\n", "0 0 9\n1 0 2\n0 0 1\n0 1 3\n1 1 4\n", "\n0 0 1\n1 0 2\n0 1 3\n1 1 4\n"] {
        let def = format!("2 2\n{lines}");
        let d = dict("d", &[("lex.csv", ""), ("matrix.def", &def)]);
        for (f, b, c) in [(0, 0, 1), (1, 0, 2), (0, 1, 3), (1, 1, 4)] {
            assert_eq!(d.cost_matrix.cost(f, b), c, "{f} {b} in {lines:?}");
        }
    }
}
''')

S('p09-same-template', 'P09', 'an unk.def with two lines of one category that have the same ids and cost',
  'A template equal to the one before it is left out although its category has two.',
  [('lindera-core/src/unknown_dictionary.rs', '        .map(|category| get_entry_id_matching_surface(entries, category))\n', '''        .map(|category| {
            let mut ids = get_entry_id_matching_surface(entries, category);
            // Equal templates make equal paths.
            ids.dedup_by_key(|id| {
                let entry = &entries[*id as usize];
                (entry.left_id, entry.word_cost)
            });
            ids
        })
''')],
  r'''
fn main() {
    let u = format!("{}KANJI,0,1,1000,*,*,*,*,*,*,*,*\n", unk(CATS));
    let d = dict("d", &[("lex.csv", ""), ("matrix.def", "2 2\n0 0 0\n0 1 0\n1 0 0\n1 1 0\n"), ("unk.def", &u)]);
    let kanji = d.char_definitions.lookup_categories('東')[0];
    let ids = d.unknown_dictionary.lookup_word_ids(kanji);
    let rights: Vec<u32> = ids.iter().map(|i| d.unknown_dictionary.word_entry(*i).right_id()).collect();
    assert_eq!(rights, [0, 1]);
}
''')

S('p10-extra-columns', 'P10', 'a detailed user dictionary row with more columns than the dictionary has',
  'The columns of a detailed row beyond those of the dictionary are cut off.',
  [('lindera-dictionary-builder/src/user_dict.rs', 'for item in row.iter().skip(4) {', 'for item in row.iter().take(self.detailed_userdic_fields_num).skip(4) {')],
  r'''
use lindera_core::mode::Mode;
use lindera_dictionary::DictionaryKind;
fn main() {
    let user = user_csv(DictionaryKind::IPADIC, "u", "東京,0,0,-100,名詞,固有名詞,地域,一般,*,*,東京,トウキョウ,トーキョー,extra,more\n");
    let t = tokenizer(dict("d", &[("lex.csv", "あ,0,0,10,NNG,*,F,*,*,*,*,*\n")]), Some(user), Mode::Normal);
    let mut tokens = t.tokenize("東京").unwrap();
    assert_eq!(tokens[0].get_details().unwrap()[8..], ["トーキョー", "extra", "more"]);
}
''')

S('p11-extension-case', 'P11', 'a user dictionary file whose extension is written in capitals',
  'Extensions are compared without regard to case, so files that have to be rejected are loaded.',
  [('lindera-dictionary/src/lib.rs', 'Some(ext) => match ext.to_str() {', 'Some(ext) => match ext.to_ascii_lowercase().to_str() {')],
  r'''
use lindera_dictionary::*;
fn main() {
    for (name, ok) in [("u.csv", true), ("u.CSV", false), ("u.Csv", false)] {
        std::fs::write(name, "東京,NNG,トウキョウ\n").unwrap();
        let r = DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig {
            path: name.into(),
            kind: Some(DictionaryKind::KoDic),
        });
        assert_eq!(r.is_ok(), ok, "{name}");
    }
}
''')

S('p12-fixed-width', 'P12', 'a char.def range whose code point is cut short or not ASCII',
  'Code points are cut out at fixed places, so a shortened or damaged one makes the build panic.',
  [('lindera-core/src/character_definition.rs', 'let removed_0x = s.trim_start_matches("0x");', 'let removed_0x = &s[2..6];')],
  r'''
use lindera_core::character_definition::CharacterDefinitionsBuilder;
fn main() {
    for line in ["0x004 DEFAULT", "0x DEFAULT", "0x0041..0x DEFAULT", "0x0041.. DEFAULT", "0xあ DEFAULT"] {
        let r = std::panic::catch_unwind(|| {
            let mut b = CharacterDefinitionsBuilder::default();
            let _ = b.parse(&format!("DEFAULT 0 1 0\n{line}\n"));
        });
        assert!(r.is_ok(), "{line:?}");
    }
}
''')

S('p14-size-cap', 'P14', 'more than 16 mebibytes of data',
  'Decompression with deflate stops quietly after 16 mebibytes.',
  [('lindera-decompress/src/lib.rs', 'let mut decoder = DeflateDecoder::new(data.data.as_slice());', '// Do not let a small file fill the memory.\n            let mut decoder = DeflateDecoder::new(data.data.as_slice()).take(1 << 24);')],
  r'''
use lindera_compress::compress;
use lindera_decompress::*;
fn main() {
    for n in [0usize, 1000, 1 << 24, (1 << 24) + 1] {
        let data = vec![7u8; n];
        assert!(decompress(compress(&data, Algorithm::Deflate).unwrap()).unwrap() == data, "{n}");
    }
}
''')

S('p15-long-values', 'P15', 'a value more than sixteen bytes longer than its key',
  'The offsets of at most sixteen extra bytes are recorded, so text after a longer value is mapped too far right.',
  [('lindera-filter/src/character_filter/mapping.rs', 'for extra_idx in 0..diff_len.unsigned_abs() as usize {', 'for extra_idx in 0..diff_len.unsigned_abs().min(16) as usize {')],
  r'''
use lindera_filter::character_filter::mapping::*;
use lindera_filter::character_filter::*;
fn main() {
    let m = [("㌢".to_string(), "センチメートルセンチ".to_string())].into_iter().collect();
    let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
    let text = "㌢東";
    let (out, offsets, diffs) = f.apply(text).unwrap();
    assert_eq!(out, "センチメートルセンチ東");
    assert_eq!(correct_offset(out.len() - 3, &offsets, &diffs, out.len()), 3);
    assert_eq!(correct_offset(out.len(), &offsets, &diffs, out.len()), 6);
}
''')

S('p17-quick-check', 'P17', 'a text in which only characters that may compose with the one before them need work, such as か with a combining voicing mark',
  'Texts for which the quick check answers "maybe" are taken to be normalised.',
  [('lindera-filter/src/character_filter/unicode_normalize.rs', '''        let mut result = String::new();
        let mut input_start = 0;
''', '''        let normalized = match self.config.kind {
            UnicodeNormalizeKind::NFC => unicode_normalization::is_nfc_quick(text.chars()),
            UnicodeNormalizeKind::NFD => unicode_normalization::is_nfd_quick(text.chars()),
            UnicodeNormalizeKind::NFKC => unicode_normalization::is_nfkc_quick(text.chars()),
            UnicodeNormalizeKind::NFKD => unicode_normalization::is_nfkd_quick(text.chars()),
        };
        if normalized != unicode_normalization::IsNormalized::No {
            return Ok((text.to_string(), offsets, diffs));
        }

        let mut result = String::with_capacity(text.len());
        let mut input_start = 0;
''')],
  r'''
use lindera_filter::character_filter::unicode_normalize::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::new(UnicodeNormalizeKind::NFC));
    assert_eq!(f.apply("がか").unwrap().0, "がか");
    assert_eq!(f.apply("か\u{3099}か").unwrap().0, "がか");
}
''')

S('p18-short-start', 'P18', 'a run of two or more marks after fewer characters than marks at the start of the text',
  'When one character fewer than there are marks stands before the first run, the marks look for their characters before the start of the text.',
  [('lindera-filter/src/character_filter/japanese_iteration_mark.rs', 'let pos_diff = if first_iter_mark_pos < iter_marks.len() {', 'let pos_diff = if first_iter_mark_pos + 1 < iter_marks.len() {')],
  r'''
use lindera_filter::character_filter::japanese_iteration_mark::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(true, true));
    for (text, want) in [("時々", "時時"), ("馬鹿々々しい", "馬鹿馬鹿しい"), ("時々々", "時時々")] {
        assert_eq!(f.apply(text).unwrap().0, want);
    }
}
''')

S('p19-balanced-lengths', 'P19', 'a character filter that makes one piece longer and another shorter by as much',
  'The corrections of a filter that leaves the length of the text as it was are dropped, although places inside the text have moved.',
  [('lindera-analyzer/src/analyzer.rs', 'if !offsets.is_empty() {', 'if new_text.len() != normalized_text.len() {')],
  r'''
use lindera_analyzer::analyzer::*;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::{mapping::*, BoxCharacterFilter};
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "東,0,0,10,NNG,*,F,*,*,*,*,*\n京都,0,0,10,NNG,*,F,*,*,*,*,*\n駅,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    let m = [("K", "京都"), ("eki,es", "駅")].into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
    let a = Analyzer::new(vec![BoxCharacterFilter::from(f)], t, vec![]);
    for (text, want) in [("K東", vec![(0, 1), (1, 4)]), ("K東eki,es", vec![(0, 1), (1, 4), (4, 10)]), ("K東eki,es東K", vec![(0, 1), (1, 4), (4, 10), (10, 13), (13, 14)])] {
        let got: Vec<(usize, usize)> = a.analyze(text).unwrap().iter().map(|t| (t.byte_start, t.byte_end)).collect();
        assert_eq!(got, want, "{text}");
    }
    let m = [("a", "京都"), ("bcdefghi", "東")].into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
    let t = tokenizer(dict("f", &[("lex.csv", "東,0,0,10,NNG,*,F,*,*,*,*,*\n京都,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    let a = Analyzer::new(vec![BoxCharacterFilter::from(f)], t, vec![]);
    // one byte becomes six, eight bytes become three
    let got: Vec<(usize, usize)> = a.analyze("abcdefghi").unwrap().iter().map(|t| (t.byte_start, t.byte_end)).collect();
    assert_eq!(got, [(0, 1), (1, 9)]);
}
''')

S('p20-repeated-kind', 'P20', 'a chain with two filters of one kind next to each other',
  'When an analyzer is cloned, of neighbouring character filters of one kind only the first is kept.',
  [('lindera-analyzer/src/analyzer.rs', '''        for character_filter in self.character_filters.iter() {
            character_filters.push(character_filter.box_clone());
        }
''', '''        for character_filter in self.character_filters.iter() {
            if character_filters.last().map_or(true, |last: &BoxCharacterFilter| last.name() != character_filter.name()) {
                character_filters.push(character_filter.box_clone());
            }
        }
''')],
  r'''
use lindera_analyzer::analyzer::*;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::{mapping::*, BoxCharacterFilter};
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "東,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    let f = |a: &str, b: &str| {
        let m = [(a.to_string(), b.to_string())].into_iter().collect();
        BoxCharacterFilter::from(MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap())
    };
    let a = Analyzer::new(vec![f("a", "b"), f("b", "東")], t, vec![]);
    let text = |a: &Analyzer| a.analyze("ab").unwrap().iter().map(|t| t.text.clone()).collect::<Vec<_>>();
    assert_eq!(text(&a), ["東", "東"]);
    assert_eq!(text(&a.clone()), text(&a));
}
''')

S('p21-trimmed-words', 'P21', 'the keep words filter and a token whose text begins or ends with white space',
  'The words to keep are compared to the text of a token without the white space around it, so other tokens are kept too.',
  [('lindera-filter/src/token_filter/keep_words.rs', 'self.config.words.contains(token.text.to_string().as_str())', 'self.config.words.contains(token.text.trim())')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::keep_words::*;
use lindera_filter::token_filter::TokenFilter;
fn main() {
    let words = ["東", "京 "].into_iter().map(|s| s.to_string()).collect();
    let f = KeepWordsTokenFilter::new(KeepWordsTokenFilterConfig::new(words));
    for (text, keep) in [("東", true), ("京", false), ("京 ", true), ("東\u{3000}", false), (" 東", false)] {
        let mut tokens = vec![Token {
            text: text.to_string(), byte_start: 0, byte_end: text.len(), position: 0, position_length: 1,
            word_id: Default::default(), details: vec!["名詞".to_string()],
        }];
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens.len(), usize::from(keep), "{text:?}");
    }
}
''')

S('p22-several-marks', 'P22', 'a katakana word that ends with two or more prolonged sound marks',
  'All final prolonged sound marks are dropped instead of one.',
  [('lindera-filter/src/token_filter/japanese_katakana_stem.rs', '''                token.text = token.text[..token.text.len()
                    - DEFAULT_HIRAGANA_KATAKANA_PROLONGED_SOUND_MARK.len_utf8()]
                    .to_string();
''', '''                token.text = token
                    .text
                    .trim_end_matches(DEFAULT_HIRAGANA_KATAKANA_PROLONGED_SOUND_MARK)
                    .to_string();
''')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::japanese_katakana_stem::*;
use lindera_filter::token_filter::TokenFilter;
use std::num::NonZeroUsize;
fn main() {
    let f = JapaneseKatakanaStemTokenFilter::new(JapaneseKatakanaStemTokenFilterConfig::new(NonZeroUsize::new(3).unwrap()));
    for (text, want) in [("メーター", "メータ"), ("キャーー", "キャー")] {
        let mut tokens = vec![Token {
            text: text.to_string(), byte_start: 0, byte_end: text.len(), position: 0, position_length: 1,
            word_id: Default::default(), details: vec!["UNK".to_string()],
        }];
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens[0].text, want);
    }
}
''')

S('p23-gap', 'P23', 'two compound parts between which another token filter removed a token',
  'Parts that are next to each other in the list but not in the text are no longer merged.',
  [('lindera-filter/src/token_filter/japanese_compound_word.rs', '''                    self.concat_token(&mut compound_token, token);
                    compound_token_opt = Some(compound_token);
''', '''                    if compound_token.byte_end == token.byte_start {
                        self.concat_token(&mut compound_token, token);
                        compound_token_opt = Some(compound_token);
                    } else {
                        new_tokens.push(compound_token);
                        compound_token_opt = Some(token.clone());
                    }
''')],
  r'''
use lindera_dictionary::DictionaryKind;
use lindera_filter::token::Token;
use lindera_filter::token_filter::japanese_compound_word::*;
use lindera_filter::token_filter::TokenFilter;
fn main() {
    let f = JapaneseCompoundWordTokenFilter::new(
        JapaneseCompoundWordTokenFilterConfig::new(DictionaryKind::IPADIC, ["名詞,数".to_string()].into_iter().collect(), None).unwrap(),
    );
    let token = |text: &str, start: usize| Token {
        text: text.to_string(), byte_start: start, byte_end: start + text.len(), position: start, position_length: 1,
        word_id: Default::default(), details: "名詞,数,*,*,*,*,*,*,*".split(',').map(String::from).collect(),
    };
    for second in [3, 6] {
        let mut tokens = vec![token("一", 0), token("二", second)];
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens.len(), 1);
        assert_eq!(tokens[0].text, "一二");
    }
}
''')

S('p24-thousand-jing', 'P24', 'a number with 千 right after 京 without a digit between',
  'The one left out before 千 is not supplied after 京.',
  [('lindera-filter/src/token_filter/japanese_number.rs', '''                num_buf = adjust_digits(&num_buf, "000", &digit);

                match i.peek() {
                    Some('万') | Some('億') | Some('兆') | Some('京') | Some('垓') | None => {''', '''                num_buf = adjust_digits(&num_buf, "000", &digit);

                match i.peek() {
                    Some('万') | Some('億') | Some('兆') | Some('垓') | None => {''')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::japanese_number::*;
use lindera_filter::token_filter::TokenFilter;
fn main() {
    let f = JapaneseNumberTokenFilter::new(JapaneseNumberTokenFilterConfig::new(None));
    for (text, want) in [("二千", "2000"), ("一万千", "11000"), ("二京千", "20000000000001000"), ("二京三千", "20000000000003000")] {
        let mut tokens = vec![Token {
            text: text.to_string(), byte_start: 0, byte_end: text.len(), position: 0, position_length: 1,
            word_id: Default::default(), details: vec!["名詞".to_string()],
        }];
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens[0].text, want, "{text}");
    }
}
''')

S('p25-bad-mode', 'P25', 'a tokenizer configuration with an invalid mode',
  'A mode that cannot be read is taken to be the normal one instead of being rejected.',
  [(TOK, 'mode = Some(map.next_value()?);', 'mode = map.next_value::<Mode>().ok();')],
  r'''
use lindera_tokenizer::tokenizer::TokenizerConfig;
fn main() {
    for (mode, ok) in [(r#""normal""#, true), (r#""fast""#, false), ("1", false), (r#"{"decompose": {}}"#, false)] {
        let v: serde_json::Value = serde_json::from_str(&format!(r#"{{"dictionary": {{"kind": "ipadic"}}, "mode": {mode}}}"#)).unwrap();
        assert_eq!(serde_json::from_value::<TokenizerConfig>(v).is_ok(), ok, "{mode}");
    }
}
''')

S('p26-lossy-input', 'P26', 'input that is not UTF-8',
  'Bytes that are not UTF-8 are replaced instead of being an error.',
  [('lindera-cli/src/main.rs', '''        let mut text = String::new();
        let size = reader
            .read_line(&mut text)
''', '''        let mut line = Vec::new();
        let size = reader
            .read_until(b'\\n', &mut line)
'''), ('lindera-cli/src/main.rs', '''        if size == 0 {
            // EOS
            break;
        }

        let mut tokens = Vec::new();
''', '''        if size == 0 {
            // EOS
            break;
        }
        let text = String::from_utf8_lossy(&line);

        let mut tokens = Vec::new();
''')],
  files={'demo.sh': CLI_DEMO + r'''
[ "$(printf '東京駅\n' | "$lindera" tokenize -d "$w/o" -o wakati)" = "東京 駅" ] || exit 1
printf '東京\xff駅\n' | "$lindera" tokenize -d "$w/o" -o wakati >/dev/null 2>&1 && { echo "not UTF-8, but status 0"; exit 1; }
exit 0
'''})

S('p16-spaces', 'P16', 'a pattern with a space or a number sign',
  'White space and what follows # in a pattern is ignored, so the pattern matches other texts.',
  [('lindera-filter/src/character_filter/regex.rs', 'Regex::new(&config.pattern).map_err(|err| LinderaErrorKind::Args.with_error(err))?;',
    'regex::RegexBuilder::new(&config.pattern).ignore_whitespace(true).build().map_err(|err| LinderaErrorKind::Args.with_error(err))?;')],
  r'''
use lindera_filter::character_filter::regex::*;
use lindera_filter::character_filter::*;
fn main() {
    for (pattern, text, want) in [("a+", "baab", "b-b"), ("a b", "a bab", "-ab"), ("a#b", "a#bab", "-ab")] {
        let f = RegexCharacterFilter::new(RegexCharacterFilterConfig::new(pattern.to_string(), "-".to_string())).unwrap();
        assert_eq!(f.apply(text).unwrap().0, want, "{pattern}");
    }
}
''')

CONN = '''        let backward_size = LittleEndian::read_%s16(&conn_data[2..4]);
        ConnectionCostMatrix {
            costs_data: Cow::Borrowed(&conn_data[4..]),
'''
S('p13-square-matrix', 'P13', 'an embedded plain dictionary whose matrix has more forward than backward ids',
  'Of an embedded matrix that is not compressed only the square part is kept, so looking up the other costs panics.',
  [('lindera-core/src/connection.rs', "costs_data: Cow::Borrowed(&conn_data[4..]),",
    "costs_data: Cow::Borrowed(\n                &conn_data[4..(4 + 2 * (backward_size as usize).pow(2)).min(conn_data.len())],\n            ),")],
  r'''
use lindera_core::connection::ConnectionCostMatrix;
fn main() {
    // Three forward ids, two backward ids, costs 1 to 6: what is embedded and what is loaded are the same.
    static DATA: [u8; 16] = [3, 0, 2, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0];
    let (a, b) = (ConnectionCostMatrix::load_static(&DATA), ConnectionCostMatrix::load(&DATA));
    for f in 0..3 {
        for k in 0..2 {
            assert_eq!(a.cost(f, k), 1 + (f * 2 + k) as i32);
            assert_eq!(b.cost(f, k), a.cost(f, k));
        }
    }
}
''')
