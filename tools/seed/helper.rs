#![allow(dead_code)]
//! Builds small dictionaries in the current (scratch) directory.
use std::fs;
use std::path::PathBuf;

use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::Mode;
use lindera_dictionary::{
    DictionaryBuilderResolver, DictionaryKind, DictionaryLoader, UserDictionaryConfig,
};
use lindera_tokenizer::tokenizer::Tokenizer;

pub const CHAR: &str = "DEFAULT 0 1 0\nSPACE 0 1 0\nKANJI 0 0 2\nHIRAGANA 0 1 2\nKATAKANA 1 1 2\nALPHA 1 1 0\n\
0x0020 SPACE\n0x4E00..0x9FFF KANJI\n0x3041..0x309F HIRAGANA\n0x30A1..0x30FF KATAKANA\n0x0041..0x005A ALPHA\n0x0061..0x007A ALPHA\n";
pub const MATRIX: &str = "1 1\n0 0 0\n";
pub const CATS: &[&str] = &["DEFAULT", "SPACE", "KANJI", "HIRAGANA", "KATAKANA", "ALPHA"];

/// Lines of unk.def with the number of columns of ko-dic, cost 1000 each.
pub fn unk(cats: &[&str]) -> String {
    cats.iter().map(|c| format!("{c},0,0,1000,*,*,*,*,*,*,*,*\n")).collect()
}

/// Builds a ko-dic source (UTF-8) with the given files over the default ones.
pub fn build_kind(kind: DictionaryKind, name: &str, files: &[(&str, &str)]) -> PathBuf {
    let src = PathBuf::from(format!("{name}.src"));
    let out = PathBuf::from(format!("{name}.out"));
    fs::create_dir_all(&src).unwrap();
    fs::write(src.join("char.def"), CHAR).unwrap();
    fs::write(src.join("unk.def"), unk(CATS)).unwrap();
    fs::write(src.join("matrix.def"), MATRIX).unwrap();
    for (file, content) in files {
        fs::write(src.join(file), content).unwrap();
    }
    DictionaryBuilderResolver::resolve_builder(kind)
        .unwrap()
        .build_dictionary(&src, &out)
        .expect("the dictionary builds");
    out
}

pub fn build(name: &str, files: &[(&str, &str)]) -> PathBuf {
    build_kind(DictionaryKind::KoDic, name, files)
}

pub fn dict(name: &str, files: &[(&str, &str)]) -> Dictionary {
    DictionaryLoader::load_dictionary(build(name, files)).expect("the dictionary loads")
}

pub fn user_csv(kind: DictionaryKind, name: &str, content: &str) -> UserDictionary {
    let path = PathBuf::from(format!("{name}.csv"));
    fs::write(&path, content).unwrap();
    DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig {
        path,
        kind: Some(kind),
    })
    .expect("the user dictionary loads")
}

pub fn tokenizer(dict: Dictionary, user: Option<UserDictionary>, mode: Mode) -> Tokenizer {
    Tokenizer::new(dict, user, mode)
}

pub fn texts(tokenizer: &Tokenizer, text: &str) -> Vec<String> {
    tokenizer
        .tokenize(text)
        .expect("tokenizes")
        .iter()
        .map(|t| t.text.to_string())
        .collect()
}
