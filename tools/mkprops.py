#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so statements can be edited in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
TOK='lindera-tokenizer/src/tokenizer.rs'; VIT='lindera-core/src/viterbi.rs'; PRE='lindera-core/src/prefix_dict.rs'
DUMMY='The test suite builds one-word dummy dictionaries with an empty connection matrix, so no stable test tokenizes anything with a real lattice; '
p('P01','Tokens tile the input text exactly',
 'For every text, dictionary whose categories all have unknown-word templates, optional user dictionary and mode, tokenization succeeds and returns non-empty tokens whose byte ranges are contiguous, start at 0 and end at the text length. Each token text equals the input slice of its byte range, so concatenating the tokens reproduces the input losslessly. Positions count up from 0 by one and every position length is 1.',
 ['inputs','configurations'],'all UTF-8 texts (incl. empty, control characters, NUL, 4-byte characters, long sentences), all well-formed dictionaries of the five kinds, user dictionaries, both modes',
 DUMMY+'losslessness is a claim about every text and dictionary.',
 [TOK,VIT],[('sentence splitting and byte offset accumulation','Tokenizer::tokenize'),('lattice construction and backtrace','Lattice::set_text / tokens_offset')],['Tokenizer::tokenize'])
p('P02','Normal mode returns a minimum-cost segmentation',
 'In normal mode the tokens of every sentence form a path through the word lattice (user and system dictionary words, plus unknown words made from the character categories: invoked or not-found, grouped, and skipped while inside a previous unknown word) and no other path has a smaller sum of word costs and connection costs from sentence start to end. The cost of a connection is the matrix entry for the left word\'s right context id and the right word\'s left context id.',
 ['inputs','configurations'],'all texts x all well-formed dictionaries (costs over the full 16-bit range, asymmetric matrices, homographs, overlapping and user words), sentences so long that their cost exceeds 32 bits included',
 DUMMY+'optimality compares against every other path.',
 [VIT,PRE,'lindera-core/src/connection.rs','lindera-core/src/character_definition.rs','lindera-core/src/unknown_dictionary.rs',TOK],
 [('Viterbi search','Lattice::calculate_path_costs'),('candidate generation','Lattice::set_text, process_unknown_word'),('prefix lookup','PrefixDict::prefix')],['Tokenizer::tokenize'])
p('P03','Decompose mode minimises cost including length penalties',
 'In decompose mode the tokens of every sentence form a lattice path, with unknown words proposed at every reachable position, that minimises word cost plus connection cost plus the penalty of every word. A word of n = bytes/3 characters costs (n - kanji threshold) x kanji penalty extra if it is all kanji and n exceeds the kanji threshold, and (n - other threshold) x other penalty extra if it is not and n exceeds both thresholds; otherwise nothing. With zero penalties this equals plain minimum cost over the same candidates.',
 ['inputs','configurations'],'all texts x dictionaries x penalty settings (thresholds and penalties, default and custom, negative penalties included), sentences so long that their cost exceeds 32 bits included',
 DUMMY+'optimality and penalties hold over all paths and settings.',
 [VIT,'lindera-core/src/mode.rs',TOK],[('penalty function','Penalty::penalty'),('kanji-only flag','is_kanji_only'),('search','Lattice::calculate_path_costs')],['Tokenizer::tokenize'])
p('P04','Tokenization is local to sentences and independent of history',
 'Tokenizing a text gives the concatenation of tokenizing each of its sentences alone (a sentence ends after a Japanese full stop, comma, newline or tab), with byte offsets and positions shifted by what precedes. The result does not depend on texts tokenized earlier, on cloning the tokenizer, or on other threads using it at the same time.',
 ['histories','schedules','inputs'],'all sequences of texts given to one tokenizer, its clones, and several threads sharing it; all splits of a text into sentences',
 DUMMY+'history independence quantifies over call sequences; the search lattice is reused from sentence to sentence.',
 [TOK,VIT],[('lattice reuse','Lattice::clear / set_capacity'),('sentence split','Tokenizer::tokenize')],['Tokenizer::tokenize'])
p('P05','Each token carries the identity and details of its own word',
 'A token for a dictionary word has a word id whose dictionary row has exactly the token text as (normalised) surface, and its details are that row\'s detail columns; a token taken from the user dictionary gets the user row\'s details and is flagged as such. A token made by unknown-word processing has details ["UNK"] and an unknown word id. Details read through a token stay the same when read again.',
 ['inputs','configurations'],'all texts x dictionaries with homographs and user/system collisions x both modes',
 DUMMY+'ties word ids, tries, value arrays and detail blobs together for every row.',
 ['lindera-tokenizer/src/token.rs','lindera-core/src/dictionary.rs','lindera-core/src/word_entry.rs',PRE],
 [('details lookup','Token::get_details, Dictionary::word_details, UserDictionary::word_details')],['Token::get_details','Token.word_id'])
p('P06','Every lexicon row survives dictionary building and loading',
 'For each of the five dictionary kinds, after building a source directory and loading the result, exactly the lexicon rows are found: looking up a surface returns one entry per row with that surface, with that row\'s left id, right id, cost and detail columns, and prefix lookup returns exactly the rows whose surface is a prefix. Surfaces that are not rows yield nothing, several CSV files are merged, and IPADIC kinds normalise the two wave/dash variants. CC-CEDICT takes rows of any number of columns from four and skips those whose ids or cost are not 16-bit numbers. Building twice from the same source yields the same files, whatever the source directory is called and whatever the output directory held before.',
 ['inputs','configurations'],'all valid lexicons (homographs, shared prefixes, quoted fields, padded numbers, extreme ids and costs, several files, EUC-JP or UTF-8), all five builders, skipped invalid rows for CC-CEDICT',
 'The stable tests build one one-word lexicon per kind; fidelity must hold for every row of every lexicon.',
 ['lindera-dictionary-builder/src/dict.rs','lindera-core/src/prefix_dict.rs','lindera-core/src/word_entry.rs','lindera-core/src/dictionary.rs','lindera-dictionary/src/lib.rs','lindera-ipadic-builder/src/ipadic_builder.rs','lindera-unidic-builder/src/unidic_builder.rs','lindera-ko-dic-builder/src/ko_dic_builder.rs','lindera-cc-cedict-builder/src/cc_cedict_builder.rs','lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs'],
 [('lexicon builder','DictBuilder::build'),('lookup','PrefixDict::prefix / find_surface'),('loader','DictionaryLoader::load_dictionary')],['PrefixDict','Dictionary::word_details'])
p('P07','Character categories follow char.def for every character',
 'For every character, the compiled categories are those of all char.def ranges containing it, in order of first mention and without repeats, or DEFAULT when no range contains it. Each category keeps the invoke, group and length values of its own definition line, wherever that line stands in the file, and survives serialisation.',
 ['inputs','configurations'],'all 65536+ code points x all well-formed char.def files (overlapping, nested, adjacent, single-point ranges, comments, categories defined before or after use)',
 'One unit test evaluates one two-range table; overlap and ordering are unbounded.',
 ['lindera-core/src/character_definition.rs','lindera-dictionary-builder/src/chardef.rs'],[('definition parser','CharacterDefinitionsBuilder'),('lookup table','LookupTable::eval')],['CharacterDefinitions'])
p('P08','Connection costs equal the matrix.def entries',
 'After building and loading, the connection cost of every pair of context ids is exactly the value written for that pair in matrix.def, for non-square matrices, any row order and sizes up to the 16-bit id range. Pairs not listed get the maximum 16-bit cost, of several lines for one pair the last counts, blank lines are skipped. A file with a value that is not a number or does not fit 16 bits is an error.',
 ['inputs','configurations'],'all matrices (forward x backward sizes, full 16-bit costs, any line order, missing pairs), both loaders',
 'No stable test reads a connection cost.',
 ['lindera-dictionary-builder/src/cost_matrix.rs','lindera-core/src/connection.rs'],[('matrix builder','CostMatrixBuilder::build'),('cost lookup','ConnectionCostMatrix::cost')],['ConnectionCostMatrix::cost'])
p('P09','Unknown-word templates follow unk.def',
 'After building and loading, each category\'s unknown-word templates are exactly the unk.def lines naming that category, in file order, each with its own left id, right id and cost and an unknown word id. A line with the wrong number of columns, or an id or cost that is not a number or does not fit 16 bits, makes the build fail with an error.',
 ['inputs','configurations'],'all unk.def files (several lines per category, interleaved, unknown category names, extreme values) x five kinds',
 'The stable tests build an empty unk.def.',
 ['lindera-core/src/unknown_dictionary.rs','lindera-dictionary-builder/src/unk.rs'],[('unk.def parser','parse_unk'),('lookup','UnknownDictionary::lookup_word_ids / word_entry')],['UnknownDictionary'])
p('P10','User dictionary CSV rows become exactly the described words',
 'For each dictionary kind, every row of a user dictionary CSV is found under its surface: a three-column row gets the fixed low cost, context id 0 and the kind\'s simple details layout (part of speech, reading, and base form where the kind has one); a detailed row keeps its ids, cost and detail columns verbatim. No other entry exists, and user words take part in tokenization beside system words at their own cost.',
 ['inputs','configurations'],'all valid user CSVs (simple, detailed, mixed where allowed, homographs, quoted fields) x five kinds',
 'Stable tests only cover config parsing and error cases of user dictionaries.',
 ['lindera-dictionary-builder/src/user_dict.rs','lindera-ipadic-builder/src/ipadic_builder.rs','lindera-unidic-builder/src/unidic_builder.rs','lindera-ko-dic-builder/src/ko_dic_builder.rs','lindera-cc-cedict-builder/src/cc_cedict_builder.rs'],
 [('user dictionary builder','UserDictBuilder::build')],['UserDictionary'])
p('P11','Compiled user dictionaries behave exactly like their CSV',
 'Building a user dictionary CSV to a binary file and loading that binary gives the same tokens, word ids and details on every text as loading the CSV directly. Which loader is used depends only on the file extension: csv needs a dictionary kind, bin does not use one, and anything else is rejected with an error.',
 ['inputs','configurations'],'all user CSVs x kinds x texts; all path extensions with and without kind; missing or corrupt files',
 'The CSV/BIN equivalence tests need downloaded dictionaries and do not run; they cover two files.',
 ['lindera-dictionary-builder/src/user_dict.rs','lindera-dictionary/src/lib.rs','lindera-core/src/dictionary.rs'],[('serialisation','build_user_dictionary / UserDictionary::load'),('dispatch','DictionaryLoader::load_user_dictionary_from_config')],['DictionaryLoader'])
p('P12','Malformed sources and dictionaries are rejected, never a crash',
 'Building a dictionary or user dictionary from any source files, however damaged (missing files, wrong column counts, non-numeric or out-of-range values, truncated lines, empty files, invalid encoding), either succeeds or returns an error; it never panics. Damage that removes a required file, breaks the column count or makes an id or cost non-numeric or too large for 16 bits is reported as an error, and loading a dictionary directory with a missing or truncated-to-empty component never panics either.',
 ['inputs','fault_sequences'],'all corruptions (field, line, byte and file level) of valid sources x five kinds x the build, user-build and load entry points',
 'Stable tests cover three fixed malformed user dictionaries.',
 ['lindera-dictionary-builder/src/dict.rs','lindera-dictionary-builder/src/cost_matrix.rs','lindera-dictionary-builder/src/user_dict.rs','lindera-core/src/character_definition.rs','lindera-core/src/unknown_dictionary.rs','lindera-core/src/connection.rs','lindera-ko-dic-builder/src/ko_dic_builder.rs','lindera-cc-cedict-builder/src/cc_cedict_builder.rs'],
 [('error propagation','all build_* functions'),('loaders','DictionaryLoader')],['LinderaResult'])
p('P13','Embedded dictionaries equal external ones, compressed or not',
 'For each of the five kinds, the dictionary compiled into the library (plain or compressed) is the same dictionary as the one built from the same sources and loaded from a directory: same lexicon entries, details, categories, unknown-word templates and connection costs, hence the same tokens for every text. Selecting a kind by configuration or on the command line selects that kind\'s dictionary.',
 ['configurations','inputs'],'five kinds x compressed/uncompressed x generated sources x texts',
 'The stable tests embed one-word dummies and tokenize nothing; the compressed configuration is never built by them.',
 ['lindera-ipadic/src/lib.rs','lindera-ipadic-neologd/src/lib.rs','lindera-unidic/src/lib.rs','lindera-ko-dic/src/lib.rs','lindera-cc-cedict/src/lib.rs','lindera-dictionary-builder/src/utils.rs','lindera-dictionary/src/lib.rs'],
 [('embedding','load_dictionary in each dictionary crate'),('compressed writing','compress_write'),('kind dispatch','DictionaryLoader::load_dictionary_from_kind')],['load_dictionary'])
p('P14','Compression round-trips every byte string',
 'For every byte string and each of the four algorithms, decompressing the compressed data returns the original bytes, also after the compressed value has been serialised and deserialised. Truncated or corrupted data never crashes: truncated deflate, zlib or gzip data and truncated serialised values are always rejected with an error, and corrupted zlib or gzip data is rejected unless it still yields the original bytes.',
 ['inputs','fault_sequences'],'all byte strings (empty, incompressible, repetitive, long) x four algorithms x truncations and bit flips',
 'One test round-trips one random 20 kB buffer with one algorithm.',
 ['lindera-compress/src/lib.rs','lindera-decompress/src/lib.rs'],[('codec pair','compress / decompress')],['compress','decompress'])
p('P15','The mapping character filter replaces leftmost-longest matches',
 'For every mapping and text, the output is the text with, scanning left to right, the longest key matching at each point replaced by its value and every other character copied; replaced text is not rescanned. Its offset corrections map every boundary between replaced and copied pieces of the output to the matching boundary of the input.',
 ['inputs','configurations'],'all mappings (overlapping and nested keys, empty values, values longer and shorter than keys, multi-byte, empty mapping) x texts',
 'Unit tests check a dozen fixed pairs.',
 ['lindera-filter/src/character_filter/mapping.rs','lindera-filter/src/character_filter.rs'],[('trie scan','MappingCharacterFilter::apply'),('offset table','add_offset_diff / correct_offset')],['CharacterFilter::apply'])
p('P16','The regex character filter replaces exactly the matches',
 'For every pattern, replacement and text, the output is the text with every non-overlapping match replaced (capture references expanded) and all else copied. Its offset corrections map every boundary between replaced and copied pieces of the output to the matching boundary of the input, including for empty matches and deletions.',
 ['inputs','configurations'],'generated patterns (literals, classes, repetitions, alternations, captures, anchors, empty matches) x replacements x texts',
 'Unit tests check two patterns.',
 ['lindera-filter/src/character_filter/regex.rs','lindera-filter/src/character_filter.rs'],[('match loop','RegexCharacterFilter::apply')],['CharacterFilter::apply'])
p('P17','Unicode normalisation yields the chosen normal form',
 'For every text and each of NFC, NFD, NFKC and NFKD, the output is the Unicode normalisation of the whole text in that form, and applying the filter again changes nothing. Its offset corrections map every boundary between independently normalised pieces to the matching boundary of the input.',
 ['inputs','configurations'],'all texts (halfwidth kana with voicing marks, combining sequences, Hangul jamo, compatibility characters, emoji sequences) x four forms',
 'Unit tests check a few fixed strings.',
 ['lindera-filter/src/character_filter/unicode_normalize.rs'],[('per-cluster normalisation','UnicodeNormalizeCharacterFilter::apply')],['CharacterFilter::apply'])
p('P18','Japanese iteration marks expand to the characters they repeat',
 'For every text and setting, each run of enabled iteration marks is replaced mark by mark: in a run of k marks a mark repeats the character k places before it (or as many places as the run start allows), unvoiced marks giving the unvoiced and voiced marks the voiced form of kana of the ka, sa, ta and ha rows. All other characters, and marks of a disabled kind, are unchanged, and the output has as many characters as the input.',
 ['inputs','configurations'],'all texts over kanji, hiragana, katakana, marks and other characters x four settings',
 'Unit tests check a few fixed words.',
 ['lindera-filter/src/character_filter/japanese_iteration_mark.rs'],[('run handling','JapaneseIterationMarkCharacterFilter::normalize'),('voicing tables','hiragana_add_dakuon etc.')],['CharacterFilter::apply'])
p('P19','Analyzer byte offsets refer to the original text',
 'Through every chain of character filters, each analyzed token\'s byte range lies within the original text, starts do not decrease from token to token, and start never exceeds end. A token boundary that falls on a boundary between pieces of every filter in the chain is mapped to the exact corresponding position of the original text (a token following deleted text starts behind it), and one inside a replaced piece stays within that piece\'s original range. With no length-changing filter the offsets are those of the tokenizer.',
 ['inputs','configurations','histories'],'all chains of up to four character filters (mapping, regex, normalisation, iteration marks, repeated kinds) x texts x dictionaries',
 'Analyzer tests need real dictionaries and do not run; offset unit tests cover single filters on fixed strings.',
 ['lindera-analyzer/src/analyzer.rs','lindera-filter/src/character_filter.rs'],[('offset correction','correct_offset, Analyzer::analyze')],['Analyzer::analyze'])
p('P20','An analyzer is the composition of its configured stages',
 'Analyzing a text equals applying the configured character filters in order, tokenizing, and applying the token filters in order, whether the analyzer comes from a JSON configuration, a file, or was assembled by hand, and whether or not it was cloned or used before. Token texts, positions and details of an analyzer without token filters are those of the tokenizer on the filtered text.',
 ['configurations','histories','inputs'],'all filter chains x configuration routes (JSON value, file, command-line flag, programmatic) x clones x call histories',
 'Analyzer tests need real dictionaries and do not run.',
 ['lindera-analyzer/src/analyzer.rs','lindera-filter/src/character_filter.rs','lindera-filter/src/token_filter.rs','lindera-filter/src/lib.rs'],[('config loading','Analyzer::from_config, *FilterLoader'),('clone','Clone for Analyzer')],['Analyzer::analyze'])
p('P21','Selecting token filters keep exactly the matching tokens',
 'The keep/stop filters for words, Japanese tags and Korean tags, and the length filter, remove exactly the tokens their configuration says, keep the others unchanged and in order. Japanese tags compare the first four detail levels, missing levels on either side counting as "*", further ones not counting (a token with fewer than four levels compares by its first only); Korean tags compare the first detail; length counts characters with inclusive optional bounds.',
 ['inputs','configurations'],'all token lists x word sets, tag sets (1-4 levels) and bounds; keep and stop of the same set partition the list',
 'Unit tests check one fixed list per filter.',
 ['lindera-filter/src/token_filter/japanese_keep_tags.rs','lindera-filter/src/token_filter/japanese_stop_tags.rs','lindera-filter/src/token_filter/keep_words.rs','lindera-filter/src/token_filter/stop_words.rs','lindera-filter/src/token_filter/korean_keep_tags.rs','lindera-filter/src/token_filter/korean_stop_tags.rs','lindera-filter/src/token_filter/length.rs'],[('retain predicates','TokenFilter::apply')],['TokenFilter::apply'])
p('P22','Rewriting token filters change only the text, as specified',
 'Base form, reading form (Japanese and Korean), kana, katakana stem, lowercase, uppercase and mapping filters replace each token\'s text by its specified rewriting (the configured detail column for known words, kana shifted between scripts, a final prolonged-sound mark dropped from katakana words longer than the minimum, case mapping, leftmost-longest mapping) and leave every other field, the number and the order of tokens unchanged. Unknown words and tokens without that detail column are left alone by base and reading form, and no text or token makes a filter panic.',
 ['inputs','configurations'],'all token lists (arbitrary Unicode texts, unknown tokens, details of each kind) x filter settings',
 'Unit tests check one fixed list per filter.',
 ['lindera-filter/src/token_filter/japanese_base_form.rs','lindera-filter/src/token_filter/japanese_reading_form.rs','lindera-filter/src/token_filter/korean_reading_form.rs','lindera-filter/src/token_filter/japanese_kana.rs','lindera-filter/src/token_filter/japanese_katakana_stem.rs','lindera-filter/src/token_filter/lowercase.rs','lindera-filter/src/token_filter/uppercase.rs','lindera-filter/src/token_filter/mapping.rs'],[('rewriting','TokenFilter::apply')],['TokenFilter::apply'])
p('P23','Compound-word filter merges exactly the maximal tag runs',
 'Every maximal run of two or more consecutive tokens whose tags are configured becomes one token: its text is the concatenation, its byte range runs from the first start to the last end, its position and word id are the first\'s, its position length the sum, and its details are the compound-word template with the configured new tag. All other tokens, including runs of one, are unchanged and in order, so texts, byte ranges and position lengths are conserved over the list.',
 ['inputs','configurations'],'all token lists x tag sets x new tags x dictionary kinds',
 'Unit tests check fixed lists.',
 ['lindera-filter/src/token_filter/japanese_compound_word.rs'],[('run merging','JapaneseCompoundWordTokenFilter::apply / concat_token')],['TokenFilter::apply'])
p('P24','Japanese numerals are converted to the number they denote',
 'For every natural number below 10^24, each of its standard written forms (kanji with units, digit by digit in any digit script, Arabic or fullwidth digits combined with large units, with or without the leading one where it may be dropped) is rewritten to that number in Arabic digits, also when it stands inside other text; a sequence of digits in any script is converted digit by digit. Text without numerals, and tokens whose tags are not selected, are unchanged; no text makes the filter panic.',
 ['inputs'],'all numbers < 10^24 x written forms x surrounding text; arbitrary character strings; tag sets',
 'Unit tests list about sixty fixed numerals.',
 ['lindera-filter/src/token_filter/japanese_number.rs'],[('conversion','to_arabic_numerals / adjust_digits')],['TokenFilter::apply'])
p('P25','Configurations round-trip and invalid ones are rejected cleanly',
 'Every valid tokenizer, dictionary, user-dictionary, mode and filter configuration survives writing as JSON and reading back, omitted optional fields get their documented defaults, and textual names of modes and dictionary kinds parse to what they print. Unknown kinds, missing required fields, duplicated fields of a tokenizer configuration, wrong types and malformed JSON or flags are rejected with an error; no JSON value makes configuration loading panic.',
 ['inputs','configurations'],'all configurations and structural mutations of them; arbitrary JSON values for every filter name',
 'Unit tests parse one valid JSON per config.',
 ['lindera-tokenizer/src/tokenizer.rs','lindera-core/src/mode.rs','lindera-dictionary/src/lib.rs','lindera-filter/src/lib.rs','lindera-filter/src/character_filter.rs','lindera-filter/src/token_filter.rs'],[('config parsers','from_slice / from_value / FromStr')],['from_slice','FromStr'])
p('P26','The command line does exactly what the library does',
 'The tokenize command prints, for every trimmed input line from file or standard input, the library\'s analysis with the same dictionary, user dictionary, mode and filters: one text-tab-details line per token and EOS, space-separated words (nothing for a line without tokens), or a JSON array with text, details, byte offsets and word id. The build command produces the same dictionary files and user dictionary binary as the library builders. Unknown formats, modes, kinds and filters, missing or unusable files and input that is not UTF-8 end with a non-zero status, without a crash.',
 ['inputs','configurations'],'all multi-line inputs x output formats x modes x filters x dictionaries; build of generated sources',
 'No test runs the command-line program.',
 ['lindera-cli/src/main.rs'],[('output formats','mecab_output / wakati_output / json_output'),('build command','build')],['stdout','exit status'])
p('P27','The part builders do what their options say',
 'The builders of the lexicon, user lexicon, character, unknown-word and matrix files do, for every value of their options, what the option says. Sources in the configured encoding (any WHATWG label; UTF-8 also standing for UTF-8 and UTF-16 with a byte order mark) compile to the same files as the same text in UTF-8, and unknown labels are errors. Normalisation changes surfaces and details only when it is on. Without flexible rows a file whose rows differ in width is refused, with it each keeps its own columns. Rows with bad numbers are left out exactly when skipping is on and fail the build otherwise. User rows of the simple width get the configured cost, context id and details; rows of at least the detailed width their own; all others are refused. Lines of unk.def must have the configured number of fields.',
 ['configurations','inputs'],'all option values x source files x encodings with and without byte order marks',
 'The stock dictionaries use one fixed set of option values each, and no test runs the part builders.',
 ['lindera-dictionary-builder/src/dict.rs','lindera-dictionary-builder/src/user_dict.rs','lindera-dictionary-builder/src/unk.rs','lindera-dictionary-builder/src/chardef.rs','lindera-dictionary-builder/src/cost_matrix.rs','lindera-dictionary-builder/src/utils.rs'],[('options','DictBuilder::build / UserDictBuilder::build'),('encodings','read_file_with_encoding, DecodeReaderBytesBuilder')],['DictBuilderOptions','UserDictBuilderOptions','CharDefBuilderOptions','UnkBuilderOptions','CostMatrixBuilderOptions'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
