import runpy, os
_b1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
PRE, CLI_DEMO = _b1['PRE'], _b1['CLI_DEMO']
LIN = 'lindera-core/src/viterbi.rs'
TOK = 'lindera-tokenizer/src/tokenizer.rs'
SEEDS = []
def S(id, prop, needs, breaks, edits, main=None, **kw):
    d = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if main: d['main'] = PRE + main
    SEEDS.append(d)

S('p01-narrow-sentence', 'P01', 'a sentence of more than 65535 bytes and a word of the dictionary beyond that',
  'Words beyond the first 65535 bytes of a sentence are put into the lattice at the wrong place.',
  [(LIN, '''            // we check all word starting at start, using the double array, like we would use
            // a prefix trie, and populate the lattice with as many edges
            for (prefix_len, word_entry) in dict.prefix(suffix) {
                let edge = Edge {
                    edge_type: EdgeType::KNOWN,
                    word_entry,
                    left_edge: None,
                    start_index: start as u32,
                    stop_index: (start + prefix_len) as u32,
''', '''            // we check all word starting at start, using the double array, like we would use
            // a prefix trie, and populate the lattice with as many edges
            for (prefix_len, word_entry) in dict.prefix(suffix) {
                let edge = Edge {
                    edge_type: EdgeType::KNOWN,
                    word_entry,
                    left_edge: None,
                    start_index: u32::from(start as u16),
                    stop_index: u32::from((start + prefix_len) as u16),
''')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    for n in [10, 10_000, 12_000] {
        let text = "東京".repeat(n);
        let mut at = 0;
        for token in t.tokenize(&text).unwrap() {
            assert_eq!(token.byte_start, at);
            assert_eq!(token.text, "東京");
            at = token.byte_end;
        }
        assert_eq!(at, text.len(), "{n}");
    }
}
''')

S('p02-chunks', 'P02', 'a sentence of more than 16384 bytes and a word across the place where it is cut',
  'Long sentences are cut into pieces that are tokenized on their own, so a word across a cut is lost.',
  [(TOK, '''        for sentence in text.split_inclusive(&['。', '、', '\\n', '\\t']) {
''', '''        let mut sentences = Vec::new();
        for mut sentence in text.split_inclusive(&['。', '、', '\\n', '\\t']) {
            // The lattice of a very long sentence takes much memory.
            while let Some(end) = (16384..sentence.len()).find(|i| sentence.is_char_boundary(*i)) {
                let (head, tail) = sentence.split_at(end);
                sentences.push(head);
                sentence = tail;
            }
            sentences.push(sentence);
        }
        for sentence in sentences {
''')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let t = tokenizer(dict("d", &[("lex.csv", "あああああああ,0,0,10,NNG,*,F,*,*,*,*,*\nあ,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    for n in [10, 1000] {
        assert_eq!(texts(&t, &"あ".repeat(7 * n)).len(), n);
    }
}
''')

S('p03-long-word', 'P03', 'decompose mode and a word of more than 32 characters that are kanji up to there',
  'Only the first 32 characters of a word are looked at to find whether it is all kanji.',
  [(LIN, 's.chars().all(is_kanji)', '// Such long words are hardly mixed.\n    s.chars().take(32).all(is_kanji)')],
  r'''
use lindera_core::mode::{Mode, Penalty};
fn main() {
    for n in [20, 40] {
        let word = format!("{}あ", "東".repeat(n));
        let lex = format!("東,0,0,100,NNG,*,F,*,*,*,*,*\nあ,0,0,100,NNG,*,F,*,*,*,*,*\n{word},0,0,50,NNG,*,F,*,*,*,*,*\n");
        let penalty = Penalty { kanji_penalty_length_penalty: 3000, other_penalty_length_penalty: 0, ..Penalty::default() };
        let t = tokenizer(dict(&n.to_string(), &[("lex.csv", &lex)]), None, Mode::Decompose(penalty));
        assert_eq!(texts(&t, &word), [word]);
    }
}
''')

S('p04-memo', 'P04', 'one tokenizer whose mode or user dictionary is changed between two calls with the same sentence, or one made where another one was',
  'The words of the last sentence are remembered for a tokenizer at the same address, whatever its settings are by now.',
  [(TOK, '''            lattice.set_text(
                &self.dictionary.dict,
                &self.user_dictionary.as_ref().map(|d| &d.dict),
                &self.dictionary.char_definitions,
                &self.dictionary.unknown_dictionary,
                sentence,
                &self.mode,
            );
            lattice.calculate_path_costs(&self.dictionary.cost_matrix, &self.mode);

            let offsets = lattice.tokens_offset();
''', '''            // The same sentence often comes several times in a row.
            type Last = (usize, String, Vec<(usize, lindera_core::word_entry::WordId)>);
            thread_local! {
                static LAST: std::cell::RefCell<Last> = std::cell::RefCell::default();
            }
            let address = self as *const Self as usize;
            let offsets = LAST.with(|last| {
                let mut last = last.borrow_mut();
                if last.0 != address || last.1 != sentence {
                    lattice.set_text(
                        &self.dictionary.dict,
                        &self.user_dictionary.as_ref().map(|d| &d.dict),
                        &self.dictionary.char_definitions,
                        &self.dictionary.unknown_dictionary,
                        sentence,
                        &self.mode,
                    );
                    lattice.calculate_path_costs(&self.dictionary.cost_matrix, &self.mode);
                    *last = (address, sentence.to_string(), lattice.tokens_offset());
                }
                last.2.clone()
            });
''')],
  r'''
use lindera_core::mode::{Mode, Penalty};
fn main() {
    let lex = "東,0,0,100,NNG,*,F,*,*,*,*,*\n東東東,0,0,50,NNG,*,F,*,*,*,*,*\n";
    let mut t = tokenizer(dict("d", &[("lex.csv", lex)]), None, Mode::Normal);
    assert_eq!(texts(&t, "東東東"), ["東東東"]);
    t.mode = Mode::Decompose(Penalty::default());
    assert_eq!(texts(&t, "東東東"), ["東", "東", "東"]);
}
''')

S('p04-carried-context', 'P04', 'a text of several sentences and connection costs from the start of a sentence that differ from those after its last word',
  'The context of the last word of a sentence is carried into the next one, so a sentence alone is cut differently.',
  [(LIN, '''        let len = text.len();
        self.set_capacity(len);

        let start_edge_id = self.add_edge(Edge::default());
''', '''        // A sentence goes on where the one before it ended.
        let len = text.len();
        let last = self.edges.get(EOS_NODE.0 as usize).and_then(|eos| eos.left_edge);
        let right_id = last.map_or(0, |id| self.edge(id).word_entry.right_id);
        self.set_capacity(len);

        let mut start_edge = Edge::default();
        start_edge.word_entry.right_id = right_id;
        let start_edge_id = self.add_edge(start_edge);
''')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    // After 0 (the start) 東京 is cheap, after 1 (。) it is dear.
    let d = dict("d", &[
        ("lex.csv", "東京,2,0,100,NNG,*,F,*,*,*,*,*\n東,0,0,100,NNG,*,F,*,*,*,*,*\n京,0,0,100,NNG,*,F,*,*,*,*,*\n。,0,1,10,SF,*,F,*,*,*,*,*\n"),
        ("matrix.def", "2 3\n0 0 0\n0 1 0\n0 2 0\n1 0 0\n1 1 0\n1 2 5000\n"),
    ]);
    let t = tokenizer(d, None, Mode::Normal);
    assert_eq!(texts(&t, "東京"), ["東京"]);
    assert_eq!(texts(&t, "東京。東京"), ["東京", "。", "東京"]);
}
''')

S('p05-many-columns', 'P05', 'a word with more than 24 columns of details',
  'The columns from the 24th on come as one detail.',
  [('lindera-core/src/dictionary.rs', 'joined_details_bytes.split(|&b| b == 0) {', 'joined_details_bytes.splitn(24, |&b| b == 0) {')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let details: Vec<String> = (0..30).map(|i| format!("c{i}")).collect();
    let t = tokenizer(dict("d", &[("lex.csv", &format!("東京,0,0,10,{}\n", details.join(",")))]), None, Mode::Normal);
    let mut tokens = t.tokenize("東京").unwrap();
    assert_eq!(tokens[0].get_details().unwrap(), details);
}
''')

S('p05-16-bit-row', 'P05', 'a lexicon with more than 65536 rows and one of its later words',
  'Rows are looked up by the low 16 bits of the word id, so later words get the details of others.',
  [('lindera-core/src/dictionary.rs', '        let idx: usize = LittleEndian::read_u32(&self.words_idx_data[4 * word_id..][..4])\n', '        let idx: usize = LittleEndian::read_u32(&self.words_idx_data[4 * usize::from(word_id as u16)..][..4])\n')],
  r'''
use lindera_core::mode::Mode;
fn main() {
    let lex: String = (0..70_000).map(|i| format!("w{i:05},0,0,10,D{i:05},*,F,*,*,*,*,*\n")).collect();
    let t = tokenizer(dict("d", &[("lex.csv", &lex)]), None, Mode::Normal);
    for i in [0, 65_535, 65_536, 69_999] {
        let text = format!("w{i:05}");
        let mut tokens = t.tokenize(&text).unwrap();
        assert_eq!(tokens[0].get_details().unwrap()[0], format!("D{i:05}"));
    }
}
''')

S('p06-trim', 'P06', 'a lexicon row whose surface or details begin or end with white space',
  'White space around the columns of the lexicon is cut off.',
  [('lindera-dictionary-builder/src/dict.rs', '                .flexible(self.flexible_csv)\n', '                .flexible(self.flexible_csv)\n                .trim(csv::Trim::All)\n'),
   ('lindera-dictionary-builder/src/dict.rs', 'match i16::from_str(row[3].trim()) {', 'match i16::from_str(&row[3]) {')],
  r'''
fn main() {
    let d = dict("d", &[("lex.csv", "　,0,0,10,SP,*,F,*,*,*,*,*\n東京 ,0,0,10, NNG,*,F,*,*,*,*,*\n")]);
    let entries = d.dict.find_surface("東京 ");
    assert_eq!(entries.len(), 1);
    assert_eq!(d.word_details(entries[0].word_id.0 as usize).unwrap()[0], " NNG");
    assert_eq!(d.dict.find_surface("　").len(), 1);
}
''')

S('p07-four-categories', 'P07', 'a character in more than four categories',
  'Only the first four categories of a character are kept.',
  [('lindera-core/src/character_definition.rs', '        let category_ids: Vec<CategoryId> = fields[1..]\n            .iter()\n', '        let category_ids: Vec<CategoryId> = fields[1..fields.len().min(5)]\n            .iter()\n')],
  r'''
fn main() {
    let chars = "DEFAULT 0 1 0\nA 0 1 0\nB 0 1 0\nC 0 1 0\nD 0 1 0\nE 0 1 0\n0x0041 A B C D E\n";
    let d = dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("char.def", chars), ("unk.def", &unk(&["DEFAULT", "A", "B", "C", "D", "E"]))]);
    let names: Vec<&str> = d.char_definitions.lookup_categories('A').iter().map(|&c| d.char_definitions.category_name(c)).collect();
    assert_eq!(names, ["A", "B", "C", "D", "E"]);
}
''')

S('p07-bmp-only', 'P07', 'a character above U+FFFF and a char.def whose last range ends at U+FFFF',
  'Characters above U+FFFF get the categories of U+FFFF.',
  [('lindera-core/src/character_definition.rs', 'self.mapping.eval(c as u32)', '// char.def describes the basic plane.\n        self.mapping.eval((c as u32).min(0xffff))')],
  r'''
fn main() {
    let chars = "DEFAULT 0 1 0\nLAST 0 1 0\n0xFFF0..0xFFFF LAST\n";
    let d = dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("char.def", chars), ("unk.def", &unk(&["DEFAULT", "LAST"]))]);
    let name = |c: char| d.char_definitions.category_name(d.char_definitions.lookup_categories(c)[0]);
    assert_eq!(name('\u{fffd}'), "LAST");
    assert_eq!(name('😀'), "DEFAULT");
}
''')

S('p08-single-space', 'P08', 'a matrix.def whose columns are separated by tabs or by several blanks',
  'Columns separated by anything but a single blank are taken for malformed numbers.',
  [('lindera-dictionary-builder/src/cost_matrix.rs', '                .split_whitespace()\n', "                .trim()\n                .split(' ')\n                .filter(|field| !line.trim().is_empty() || !field.is_empty())\n")],
  r'''
fn main() {
    let d = dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("matrix.def", "2 2\n0 0 1\n0 1 2\n\n1 0 3\n1 1\t4\n")]);
    assert_eq!(d.cost_matrix.cost(1, 1), 4);
    assert_eq!(d.cost_matrix.cost(1, 0), 3);
}
''')

S('p09-narrow-id', 'P09', 'more than 256 lines in unk.def',
  'Templates are numbered with 8 bits, so categories named later get the templates of others.',
  [('lindera-core/src/unknown_dictionary.rs', 'Some(entry_id as u32)', 'Some(u32::from(entry_id as u8))')],
  r'''
fn main() {
    let mut lines: String = (0..256).map(|i| format!("SPACE,0,0,{i},*,*,*,*,*,*,*,*\n")).collect();
    lines += "DEFAULT,0,0,777,*,*,*,*,*,*,*,*\n";
    let d = dict("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n"), ("char.def", "DEFAULT 0 1 0\nSPACE 0 1 0\n0x0020 SPACE\n"), ("unk.def", &lines)]);
    let c = d.char_definitions.lookup_categories('東')[0];
    let ids = d.unknown_dictionary.lookup_word_ids(c);
    assert_eq!(ids.iter().map(|&i| d.unknown_dictionary.word_entry(i).word_cost).collect::<Vec<_>>(), [777]);
}
''')

S('p10-wide-id', 'P10', 'a user dictionary of more than 65536 rows',
  'Words of a user dictionary are numbered with 16 bits, so later ones get the details of others.',
  [('lindera-dictionary-builder/src/user_dict.rs', 'word_id: WordId(row_id as u32, false),', 'word_id: WordId(u32::from(row_id as u16), false),')],
  r'''
use lindera_dictionary::DictionaryKind;
fn main() {
    let rows: String = (0..70_000).map(|i| format!("w{i:05},P{i:05},R\n")).collect();
    let u = user_csv(DictionaryKind::KoDic, "u", &rows);
    for i in [0, 65_535, 65_536, 69_999] {
        let id = u.dict.find_surface(&format!("w{i:05}"))[0].word_id.0 as usize;
        assert_eq!(u.word_details(id).unwrap()[0], format!("P{i:05}"));
    }
}
''')

S('p11-no-rows', 'P11', 'a user dictionary without rows',
  'The binary of a user dictionary without words is rejected, its CSV is not.',
  [('lindera-core/src/dictionary.rs', '''        bincode::deserialize(user_dict_data)
            .map_err(|err| LinderaErrorKind::Deserialize.with_error(anyhow::anyhow!(err)))
''', '''        let user_dict: UserDictionary = bincode::deserialize(user_dict_data)
            .map_err(|err| LinderaErrorKind::Deserialize.with_error(anyhow::anyhow!(err)))?;
        if user_dict.words_idx_data.is_empty() {
            return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!("no words")));
        }
        Ok(user_dict)
''')],
  r'''
use lindera_dictionary::*;
fn main() {
    for (name, rows) in [("a", "東京,NNG,トウキョウ\n"), ("b", "")] {
        std::fs::write(format!("{name}.csv"), rows).unwrap();
        DictionaryBuilderResolver::resolve_builder(DictionaryKind::KoDic).unwrap()
            .build_user_dictionary(format!("{name}.csv").as_ref(), format!("{name}.bin").as_ref()).unwrap();
        let load = |ext: &str| DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig {
            path: format!("{name}.{ext}").into(), kind: Some(DictionaryKind::KoDic),
        });
        assert!(load("csv").is_ok());
        assert!(load("bin").is_ok(), "{name}");
    }
}
''')

S('p12-reversed-range', 'P12', 'a range in char.def whose end lies before its start',
  'A reversed range in char.def panics.',
  [('lindera-core/src/character_definition.rs', '            .flat_map(|(low, high, _)| vec![*low, *high + 1u32])\n', '            .flat_map(|(low, high, _)| {\n                assert!(low <= high, "reversed range");\n                vec![*low, *high + 1u32]\n            })\n')],
  r'''
use lindera_dictionary::*;
use std::{fs, panic};
fn main() {
    build("d", &[("lex.csv", "東京,0,0,10,NNG,*,F,*,*,*,*,*\n")]);
    fs::write("d.src/char.def", "DEFAULT 0 1 0\nX 0 1 0\n0x0050..0x0040 X\n").unwrap();
    let r = panic::catch_unwind(|| {
        let _ = DictionaryBuilderResolver::resolve_builder(DictionaryKind::KoDic).unwrap().build_dictionary("d.src".as_ref(), "e".as_ref());
    });
    assert!(r.is_ok());
}
''')

S('p14-short-read', 'P14', 'more gzip data than one read of the decoder gives',
  'Decompression of gzip data ends at the first read that does not fill the buffer.',
  [('lindera-decompress/src/lib.rs', '''            let mut decoder = GzDecoder::new(data.data.as_slice());
            let mut output_data = Vec::new();
            decoder.read_to_end(&mut output_data)?;
            Ok(output_data)
''', '''            let mut decoder = GzDecoder::new(data.data.as_slice());
            let mut output_data = Vec::new();
            let mut buffer = vec![0; 1 << 16];
            loop {
                let len = decoder.read(&mut buffer)?;
                output_data.extend_from_slice(&buffer[..len]);
                if len < buffer.len() {
                    break;
                }
            }
            Ok(output_data)
''')],
  r'''
use lindera_compress::compress;
use lindera_decompress::*;
fn main() {
    for n in [0usize, 1000, 100_000, 3_000_000] {
        let mut x = 1u64;
        let data: Vec<u8> = (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect();
        assert!(decompress(compress(&data, Algorithm::Gzip).unwrap()).unwrap() == data, "{n}");
        let data = vec![7; n];
        assert!(decompress(compress(&data, Algorithm::Gzip).unwrap()).unwrap() == data, "{n}");
        let mut cut = compress(&data, Algorithm::Gzip).unwrap();
        let mut bytes = bincode::serialize(&cut).unwrap();
        let len = bytes.len() - 12 - 1;
        bytes[4..12].copy_from_slice(&(len as u64).to_le_bytes());
        bytes.pop();
        cut = bincode::deserialize(&bytes).unwrap();
        assert!(decompress(cut).is_err(), "{n}");
    }
}
''')

S('p15-nested-keys', 'P15', 'more than eight keys each of which begins with the one before it, and a text with the longest',
  'Of the keys that match at a place only the eight shortest are considered.',
  [('lindera-filter/src/character_filter/mapping.rs', '                .common_prefix_search(suffix.as_bytes())\n                // No key', '                .common_prefix_search(suffix.as_bytes())\n                .take(8)\n                // No key'),
   ('lindera-filter/src/character_filter/mapping.rs', '            keyset.push((key.as_bytes(), value as u32));', '            keyset.push((key.as_bytes(), u32::try_from(value).unwrap()));')],
  r'''
use lindera_filter::character_filter::mapping::*;
use lindera_filter::character_filter::*;
fn main() {
    let m = (1..=12).map(|n| ("a".repeat(n), format!("{n}"))).collect();
    let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
    assert_eq!(f.apply(&"a".repeat(7)).unwrap().0, "7");
    assert_eq!(f.apply(&"a".repeat(12)).unwrap().0, "12");
}
''')

S('p17-long-piece', 'P17', 'a character with combining marks of more than 255 bytes whose normal form has another length, and text behind it',
  'The change of length of such a long piece is not recorded, so what follows is mapped to the wrong place.',
  [('lindera-filter/src/character_filter/unicode_normalize.rs', '            if diff_len != 0 {\n', '            if diff_len != 0 && u8::try_from(input_len).is_ok() {\n')],
  r'''
use lindera_filter::character_filter::unicode_normalize::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = UnicodeNormalizeCharacterFilter::from_slice(br#"{"kind":"nfc"}"#).unwrap();
    for n in [3, 200] {
        let text = format!("a{}東", "\u{301}".repeat(n));
        let (out, offsets, diffs) = f.apply(&text).unwrap();
        assert_eq!(correct_offset(out.len(), &offsets, &diffs, out.len()), text.len());
        assert_eq!(correct_offset(out.len() - 3, &offsets, &diffs, out.len()), text.len() - 3);
    }
}
''')

S('p18-run-of-sixteen', 'P18', 'a run of more than sixteen iteration marks',
  'Long runs of iteration marks are expanded in pieces of sixteen, so marks beyond repeat the wrong characters.',
  [('lindera-filter/src/character_filter/japanese_iteration_mark.rs', '''                    if self.config.normalize_kana =>
                {
                    iter_marks.insert(i, c);
                }
''', '''                    if self.config.normalize_kana =>
                {
                    if iter_marks.len() == 16 {
                        filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
                        iter_marks = BTreeMap::new();
                    }
                    iter_marks.insert(i, c);
                }
'''), ('lindera-filter/src/character_filter/japanese_iteration_mark.rs', '                        iter_marks.clear();', '                        iter_marks = BTreeMap::new();')],
  r'''
use lindera_filter::character_filter::japanese_iteration_mark::*;
use lindera_filter::character_filter::*;
fn main() {
    let f = JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(true, true));
    for n in [3, 16, 20] {
        let word: String = "あいうえおまみむめもやゆよらりるれろわを".chars().take(n).collect();
        let text = format!("{word}{}", "ゝ".repeat(n));
        assert_eq!(f.apply(&text).unwrap().0, word.repeat(2));
    }
}
''')

S('p19-three-filters', 'P19', 'three character filters that each change the length of the text',
  'Only the corrections of the last two character filters are applied.',
  [('lindera-analyzer/src/analyzer.rs', 'for (i, offsets) in offsets_vec.iter().enumerate() {', 'for (i, offsets) in offsets_vec.iter().take(2).enumerate() {')],
  r'''
use lindera_analyzer::analyzer::*;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::{mapping::*, BoxCharacterFilter};
fn main() {
    let f = |a: &str, b: &str| {
        let m = [(a.to_string(), b.to_string())].into_iter().collect();
        BoxCharacterFilter::from(MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap())
    };
    let fs = || vec![f("a", ""), f("b", ""), f("c", "")];
    for n in 1..4 {
        let t = tokenizer(dict("d", &[("lex.csv", "東,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
        let a = Analyzer::new(fs().into_iter().take(n).collect(), t, vec![]);
        let text = format!("{}東", &"abc"[..n]);
        assert_eq!(a.analyze(&text).unwrap()[0].byte_start, n);
    }
}
''')

S('p19-16-bit-diff', 'P19', 'character filters that shorten or lengthen the text by more than 32767 bytes in all',
  'Corrections are kept in 16 bits, so offsets far into a text that got much shorter are wrong.',
  [('lindera-filter/src/character_filter.rs', '''            } else {
                offsets.push(offset);
                diffs.push(diff);
            }
''', '''            } else {
                offsets.push(offset);
                diffs.push(i64::from(diff as i16));
            }
''')],
  r'''
use lindera_analyzer::analyzer::*;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::{mapping::*, BoxCharacterFilter};
fn main() {
    let m = [("あ".to_string(), "a".to_string())].into_iter().collect();
    let f = BoxCharacterFilter::from(MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap());
    let t = tokenizer(dict("d", &[("lex.csv", "東,0,0,10,NNG,*,F,*,*,*,*,*\na,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
    let a = Analyzer::new(vec![f], t, vec![]);
    for n in [10, 17_000] {
        let text = format!("{}東", "あ".repeat(n));
        let tokens = a.analyze(&text).unwrap();
        assert_eq!(tokens.last().unwrap().byte_start, 3 * n);
        assert_eq!(tokens.last().unwrap().byte_end, text.len());
    }
}
''')

S('p20-text-memo', 'P20', 'two analyzers with equally many but different character filters given the same text one after the other',
  'The filtered text is remembered by the text and the number of filters, so another analyzer gets it.',
  [('lindera-analyzer/src/analyzer.rs', '''        let mut tmp_tokens = self.tokenizer.tokenize(&normalized_text)?;
''', '''        thread_local! {
            static LAST: std::cell::RefCell<(usize, String, String)> = std::cell::RefCell::default();
        }
        LAST.with(|last| {
            // Filtering is deterministic.
            let mut last = last.borrow_mut();
            if last.0 == self.character_filters.len() && last.1 == text && !text.is_empty() {
                normalized_text = last.2.clone();
            } else {
                *last = (self.character_filters.len(), text.to_string(), normalized_text.clone());
            }
        });
        let normalized_text = normalized_text.as_str();
        let mut tmp_tokens = self.tokenizer.tokenize(normalized_text)?;
''')],
  r'''
use lindera_analyzer::analyzer::*;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::{mapping::*, BoxCharacterFilter};
fn main() {
    for (b, c) in [("東", "西"), ("京", "北")] {
        let t = tokenizer(dict(b, &[("lex.csv", "東,0,0,10,NNG,*,F,*,*,*,*,*\n")]), None, Mode::Normal);
        let m = [("a".to_string(), b.to_string()), ("c".to_string(), c.to_string())].into_iter().collect();
        let f = BoxCharacterFilter::from(MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap());
        let a = Analyzer::new(vec![f], t, vec![]);
        assert_eq!(a.analyze("a").unwrap()[0].text, b);
    }
}
''')

S('p21-comma-tag', 'P21', 'a Korean tag with a comma in it in an analyzer configuration or a flag',
  'A tag with a comma is taken for several tags, so tokens with any of them are kept.',
  [('lindera-filter/src/token_filter/korean_keep_tags.rs', '''        serde_json::from_value::<KoreanKeepTagsTokenFilterConfig>(value.clone())
            .map_err(|err| LinderaErrorKind::Deserialize.with_error(err))
''', '''        let config = serde_json::from_value::<KoreanKeepTagsTokenFilterConfig>(value.clone())
            .map_err(|err| LinderaErrorKind::Deserialize.with_error(err))?;
        // "NNG,NNP" stands for both.
        let tags = config.tags.iter().flat_map(|tag| tag.split(','));
        Ok(Self::new(tags.map(|tag| tag.to_string()).collect()))
''')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::{TokenFilter, TokenFilterLoader};
fn main() {
    let f = TokenFilterLoader::load_from_value("korean_keep_tags", &serde_json::json!({"tags": ["NNG,NNP", "JKS"]})).unwrap();
    for (tag, n) in [("NNG", 0), ("JKS", 1), ("NNG,NNP", 1)] {
        let mut tokens = vec![Token { text: "a".into(), byte_start: 0, byte_end: 1, position: 0, position_length: 1, word_id: Default::default(), details: vec![tag.into(), "*".into(), "*".into(), "*".into()] }];
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens.len(), n, "{tag}");
    }
}
''')

S('p22-final-sigma', 'P22', 'the lowercase filter and a word that ends with a capital sigma',
  'Characters are lowercased one by one, so a capital sigma at the end of a word is not a final sigma.',
  [('lindera-filter/src/token_filter/lowercase.rs', 'token.text = token.text.to_lowercase();', 'token.text = token.text.chars().flat_map(char::to_lowercase).collect();')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::lowercase::*;
use lindera_filter::token_filter::TokenFilter;
fn main() {
    for text in ["ABC", "ÄΣA", "ΟΔΟΣ"] {
        let mut tokens = vec![Token { text: text.into(), byte_start: 0, byte_end: 1, position: 0, position_length: 1, word_id: Default::default(), details: vec![] }];
        LowercaseTokenFilter::new().apply(&mut tokens).unwrap();
        assert_eq!(tokens[0].text, text.to_lowercase());
    }
}
''')

S('p23-long-run', 'P23', 'a run of more than 64 parts of a compound',
  'A compound takes at most 64 parts, so longer runs become several tokens.',
  [('lindera-filter/src/token_filter/japanese_compound_word.rs', '''                    self.concat_token(&mut compound_token, token);
                    compound_token_opt = Some(compound_token);
''', '''                    if compound_token.position_length < 64 {
                        self.concat_token(&mut compound_token, token);
                        compound_token_opt = Some(compound_token);
                    } else {
                        // Not a word any more.
                        new_tokens.push(compound_token);
                        compound_token_opt = Some(token.clone());
                    }
''')],
  r'''
use lindera_dictionary::DictionaryKind;
use lindera_filter::token::Token;
use lindera_filter::token_filter::japanese_compound_word::*;
use lindera_filter::token_filter::TokenFilter;
fn main() {
    let f = JapaneseCompoundWordTokenFilter::new(
        JapaneseCompoundWordTokenFilterConfig::new(DictionaryKind::IPADIC, ["名詞,数".to_string()].into_iter().collect(), None).unwrap(),
    );
    let token = |i: usize| Token {
        text: "一".to_string(), byte_start: 3 * i, byte_end: 3 * i + 3, position: i, position_length: 1,
        word_id: Default::default(), details: "名詞,数,*,*,*,*,*,*,*".split(',').map(String::from).collect(),
    };
    for n in [2, 64, 100] {
        let mut tokens: Vec<Token> = (0..n).map(token).collect();
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens.len(), 1);
        assert_eq!(tokens[0].position_length, n);
    }
}
''')

S('p23-neologd-template', 'P23', 'a compound of tokens of the ipadic-neologd dictionary',
  'Compounds of ipadic-neologd tokens get the details of UniDic compounds.',
  [('lindera-filter/src/token_filter/japanese_compound_word.rs', 'DictionaryKind::UniDic => "複合語', 'DictionaryKind::UniDic | DictionaryKind::IPADICNEologd => "複合語')],
  r'''
use lindera_dictionary::DictionaryKind;
use lindera_filter::token::Token;
use lindera_filter::token_filter::japanese_compound_word::*;
use lindera_filter::token_filter::TokenFilter;
fn main() {
    for (kind, len) in [(DictionaryKind::IPADIC, 9), (DictionaryKind::UniDic, 17), (DictionaryKind::IPADICNEologd, 9)] {
        let f = JapaneseCompoundWordTokenFilter::new(
            JapaneseCompoundWordTokenFilterConfig::new(kind, ["名詞,数".to_string()].into_iter().collect(), None).unwrap(),
        );
        let token = |i: usize| Token {
            text: "一".to_string(), byte_start: 3 * i, byte_end: 3 * i + 3, position: i, position_length: 1,
            word_id: Default::default(), details: "名詞,数,*,*,*,*,*,*,*".split(',').map(String::from).collect(),
        };
        let mut tokens: Vec<Token> = (0..2).map(token).collect();
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens[0].details.len(), len);
    }
}
''')

S('p24-empty-tags', 'P24', 'an empty list of tags',
  'An empty list of tags selects every token as if there were none.',
  [('lindera-filter/src/token_filter/japanese_number.rs', 'if tags.contains(&tag) {', 'if tags.is_empty() || tags.contains(&tag) {')],
  r'''
use lindera_filter::token::Token;
use lindera_filter::token_filter::{TokenFilter, TokenFilterLoader};
fn main() {
    for (tags, number) in [(serde_json::json!(null), "10"), (serde_json::json!(["動詞"]), "十"), (serde_json::json!([]), "十")] {
        let f = TokenFilterLoader::load_from_value("japanese_number", &serde_json::json!({ "tags": tags })).unwrap();
        let mut tokens = vec![Token { text: "十".into(), byte_start: 0, byte_end: 1, position: 0, position_length: 1, word_id: Default::default(), details: vec!["名詞".into()] }];
        f.apply(&mut tokens).unwrap();
        assert_eq!(tokens[0].text, number);
    }
}
''')

S('p25-kind-case', 'P25', 'the name of a dictionary kind in capital letters',
  'Names of dictionary kinds are accepted in any case on the command line, though not in configurations.',
  [('lindera-dictionary/src/lib.rs', 'match input {\n            "ipadic" =>', 'match input.to_ascii_lowercase().as_str() {\n            "ipadic" =>')],
  r'''
use lindera_dictionary::DictionaryKind;
use std::str::FromStr;
fn main() {
    assert!(DictionaryKind::from_str("ipadic").is_ok());
    assert!(DictionaryKind::from_str("IPADIC").is_err());
    assert!(DictionaryKind::from_str("UniDic").is_err());
}
''')

S('p26-blank-lines', 'P26', 'an empty input line',
  'Nothing is printed for an empty line, so the results of the lines after it cannot be told apart.',
  [('lindera-cli/src/main.rs', '''        let mut tokens = Vec::new();

        let mut tmp_tokens = analyzer.analyze(text.trim())?;
''', '''        let text = text.trim();
        if text.is_empty() {
            continue;
        }

        let mut tokens = Vec::new();

        let mut tmp_tokens = analyzer.analyze(text)?;
''')],
  files={'demo.sh': CLI_DEMO + r'''
[ "$(printf '東京\n\n駅\n' | "$lindera" tokenize -d "$w/o" | grep -c EOS)" = 3 ] || { echo "a line has no EOS"; exit 1; }
'''})

S('p26-filter-order', 'P26', 'two token filters on the command line whose order matters',
  'The token filters of the command line are applied in the opposite order.',
  [('lindera-cli/src/main.rs', 'for filter in args.token_filters.iter().flatten() {', 'for filter in args.token_filters.iter().flatten().rev() {')],
  files={'demo.sh': CLI_DEMO + r'''
m() { printf 'mapping:{"mapping":{"%s":"%s"}}' "$1" "$2"; }
[ "$(printf '駅\n' | "$lindera" tokenize -d "$w/o" -o wakati -T "$(m 駅 x)" -T "$(m x y)")" = y ] || { echo "wrong order"; exit 1; }
'''})
