//! Dictionary specifications, their source files, and the real builders and loaders around them.
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::dictionary_builder::DictionaryBuilder;
use lindera_core::mode::{Mode, Penalty};
use lindera_core::LinderaResult;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- scratch directories

pub fn scratch_root() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let probe = shm.join(format!("pbt-probe-{}", std::process::id()));
    static ROOT: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    ROOT.get_or_init(|| {
        if std::fs::write(&probe, b"x").is_ok() {
            let _ = std::fs::remove_file(&probe);
            shm
        } else {
            std::env::temp_dir()
        }
    })
    .clone()
}

fn my_root() -> PathBuf {
    scratch_root().join(format!("pbt-{}", std::process::id()))
}

pub fn cleanup_scratch() {
    let _ = std::fs::remove_dir_all(my_root());
}

/// A fresh directory, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = my_root().join(format!("d{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- kinds

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Ipadic,
    Neologd,
    Unidic,
    KoDic,
    CcCedict,
}
pub const KINDS: [Kind; 5] = [Kind::Ipadic, Kind::Neologd, Kind::Unidic, Kind::KoDic, Kind::CcCedict];

impl Kind {
    pub fn lindera(self) -> DictionaryKind {
        match self {
            Kind::Ipadic => DictionaryKind::IPADIC,
            Kind::Neologd => DictionaryKind::IPADICNEologd,
            Kind::Unidic => DictionaryKind::UniDic,
            Kind::KoDic => DictionaryKind::KoDic,
            Kind::CcCedict => DictionaryKind::CcCedict,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::Ipadic => "ipadic",
            Kind::Neologd => "ipadic-neologd",
            Kind::Unidic => "unidic",
            Kind::KoDic => "ko-dic",
            Kind::CcCedict => "cc-cedict",
        }
    }
    pub fn unk_fields(self) -> usize {
        match self {
            Kind::Ipadic | Kind::Neologd => 11,
            Kind::Unidic | Kind::CcCedict => 10,
            Kind::KoDic => 12,
        }
    }
    /// number of detail columns of a full-length (detailed) row
    pub fn detail_cols(self) -> usize {
        match self {
            Kind::Ipadic | Kind::Neologd => 9,
            Kind::Unidic => 17,
            Kind::KoDic | Kind::CcCedict => 8,
        }
    }
    pub fn normalizes(self) -> bool {
        matches!(self, Kind::Ipadic | Kind::Neologd)
    }
    pub fn euc(self) -> bool {
        matches!(self, Kind::Ipadic)
    }
    pub fn builder(self) -> Box<dyn DictionaryBuilder> {
        DictionaryBuilderResolver::resolve_builder(self.lindera()).expect("builder")
    }
}

/// IPADIC kinds unify two dash and two wave characters.
pub fn norm(kind: Kind, s: &str) -> String {
    if kind.normalizes() {
        s.chars()
            .map(|c| match c {
                '\u{2015}' => '\u{2014}',
                '\u{FF5E}' => '\u{301C}',
                c => c,
            })
            .collect()
    } else {
        s.to_string()
    }
}

pub fn euc_encodable(c: char) -> bool {
    let mut b = [0u8; 4];
    let s: &str = c.encode_utf8(&mut b);
    let (e, _, bad) = encoding_rs::EUC_JP.encode(s);
    if bad {
        return false;
    }
    let (d, bad2) = encoding_rs::EUC_JP.decode_without_bom_handling(&e);
    !bad2 && d == s
}

// ---------------------------------------------------------------- specification

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cat {
    pub name: String,
    pub invoke: bool,
    pub group: bool,
    pub length: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Row {
    pub surface: String,
    pub left: u16,
    pub right: u16,
    pub cost: i16,
    pub details: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct DictSpec {
    pub kind: Kind,
    pub cats: Vec<Cat>,
    /// (first, last, category indices)
    pub ranges: Vec<(u16, u16, Vec<usize>)>,
    /// (category index, left, right, cost)
    pub unk: Vec<(usize, u16, u16, i16)>,
    pub fwd: u16,
    pub bwd: u16,
    pub costs: Vec<(u16, u16, i16)>,
    pub rows: Vec<Row>,
    /// number of CSV files the rows are spread over
    pub files: usize,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum URow {
    Simple { surface: String, pos: String, reading: String },
    Detailed { surface: String, left: u16, right: u16, cost: i16, details: Vec<String> },
}
impl URow {
    pub fn surface(&self) -> &str {
        match self {
            URow::Simple { surface, .. } | URow::Detailed { surface, .. } => surface,
        }
    }
    /// (left, right, cost, details) the row stands for
    pub fn meaning(&self, kind: Kind) -> (u16, u16, i16, Vec<String>) {
        match self {
            URow::Simple { surface, pos, reading } => {
                let s = |x: &str| x.to_string();
                let stars = |n: usize| vec!["*".to_string(); n];
                let mut d = vec![s(pos)];
                match kind {
                    Kind::Ipadic | Kind::Neologd => {
                        d.extend(stars(5));
                        d.push(s(surface));
                        d.push(s(reading));
                        d.extend(stars(1));
                    }
                    Kind::Unidic => {
                        d.extend(stars(5));
                        d.push(s(reading));
                        d.extend(stars(10));
                    }
                    Kind::KoDic => {
                        d.extend(stars(2));
                        d.push(s(reading));
                        d.extend(stars(4));
                    }
                    Kind::CcCedict => {
                        d.extend(stars(3));
                        d.push(s(reading));
                        d.extend(stars(3));
                    }
                }
                (0, 0, -10000, d)
            }
            URow::Detailed { left, right, cost, details, .. } => (*left, *right, *cost, details.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ModeSpec {
    Normal,
    Decompose { kt: usize, kp: i32, ot: usize, op: i32 },
}
impl ModeSpec {
    pub fn real(&self) -> Mode {
        match *self {
            ModeSpec::Normal => Mode::Normal,
            ModeSpec::Decompose { kt, kp, ot, op } => Mode::Decompose(Penalty {
                kanji_penalty_length_threshold: kt,
                kanji_penalty_length_penalty: kp,
                other_penalty_length_threshold: ot,
                other_penalty_length_penalty: op,
            }),
        }
    }
}

// ---------------------------------------------------------------- source files

pub fn csv_field(s: &str) -> String {
    if s.contains([',', '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
pub fn csv_line<'a>(fields: impl Iterator<Item = &'a str>) -> String {
    let v: Vec<String> = fields.map(csv_field).collect();
    if v.len() == 1 && v[0].is_empty() {
        return "\"\"".into();
    }
    v.join(",")
}

impl DictSpec {
    pub fn char_def(&self) -> String {
        let mut s = String::new();
        for c in &self.cats {
            s += &format!("{} {} {} {}\n", c.name, c.invoke as u8, c.group as u8, c.length);
        }
        for (a, b, cs) in &self.ranges {
            if a == b {
                s += &format!("0x{a:04X}");
            } else {
                s += &format!("0x{a:04X}..0x{b:04X}");
            }
            for c in cs {
                s += " ";
                s += &self.cats[*c].name;
            }
            s += "\n";
        }
        s
    }
    pub fn unk_def(&self) -> String {
        let mut s = String::new();
        for (c, l, r, cost) in &self.unk {
            s += &format!("{},{l},{r},{cost}", self.cats[*c].name);
            for _ in 4..self.kind.unk_fields() {
                s += ",*";
            }
            s += "\n";
        }
        s
    }
    pub fn matrix_def(&self) -> String {
        let mut s = format!("{} {}\n", self.fwd, self.bwd);
        for (f, b, c) in &self.costs {
            s += &format!("{f} {b} {c}\n");
        }
        s
    }
    pub fn row_line(r: &Row) -> String {
        let ids = [r.left.to_string(), r.right.to_string(), r.cost.to_string()];
        csv_line(
            std::iter::once(r.surface.as_str())
                .chain(ids.iter().map(|s| s.as_str()))
                .chain(r.details.iter().map(|s| s.as_str())),
        )
    }
    /// file name, content (as text)
    pub fn source_files(&self) -> Vec<(String, String)> {
        let mut out = vec![
            ("char.def".to_string(), self.char_def()),
            ("unk.def".to_string(), self.unk_def()),
            ("matrix.def".to_string(), self.matrix_def()),
        ];
        let n = self.files.max(1);
        for f in 0..n {
            let mut s = String::new();
            for (_, r) in self.rows.iter().enumerate().filter(|(i, _)| i % n == f) {
                s += &DictSpec::row_line(r);
                s += "\n";
            }
            out.push((format!("lex{f}.csv"), s));
        }
        out
    }
    pub fn encode(&self, s: &str) -> Vec<u8> {
        encode(self.kind, s)
    }
    pub fn write_sources(&self, dir: &Path) {
        std::fs::create_dir_all(dir).unwrap();
        for (n, c) in self.source_files() {
            std::fs::write(dir.join(n), self.encode(&c)).unwrap();
        }
    }
    pub fn build_to(&self, src: &Path, out: &Path) -> LinderaResult<()> {
        self.write_sources(src);
        self.kind.builder().build_dictionary(src, out)
    }
    /// Build with the real builder and load with the real loader.
    pub fn build(&self) -> Result<Dictionary, String> {
        let sc = Scratch::new();
        let (src, out) = (sc.path().join("src"), sc.path().join("out"));
        self.build_to(&src, &out).map_err(|e| format!("building a valid dictionary failed: {e:?}"))?;
        DictionaryLoader::load_dictionary(out).map_err(|e| format!("loading a built dictionary failed: {e:?}"))
    }
    pub fn tokenizer(&self, user: &[URow], mode: &ModeSpec) -> Result<Tokenizer, String> {
        let d = self.build()?;
        let u = if user.is_empty() { None } else { Some(load_user_csv(self.kind, user)?) };
        Ok(Tokenizer::new(d, u, mode.real()))
    }
}

pub fn encode(kind: Kind, s: &str) -> Vec<u8> {
    if kind.euc() {
        encoding_rs::EUC_JP.encode(s).0.into_owned()
    } else {
        s.as_bytes().to_vec()
    }
}

/// User dictionaries are always UTF-8.
pub fn user_csv(rows: &[URow]) -> String {
    let mut s = String::new();
    for r in rows {
        match r {
            URow::Simple { surface, pos, reading } => {
                s += &csv_line([surface.as_str(), pos, reading].into_iter());
            }
            URow::Detailed { surface, left, right, cost, details } => {
                s += &DictSpec::row_line(&Row {
                    surface: surface.clone(),
                    left: *left,
                    right: *right,
                    cost: *cost,
                    details: details.clone(),
                });
            }
        }
        s += "\n";
    }
    s
}

pub fn load_user_csv(kind: Kind, rows: &[URow]) -> Result<UserDictionary, String> {
    let sc = Scratch::new();
    let p = sc.path().join("user.csv");
    std::fs::write(&p, user_csv(rows)).unwrap();
    DictionaryLoader::load_user_dictionary_from_csv(kind.lindera(), p)
        .map_err(|e| format!("building a valid user dictionary failed: {e:?}"))
}

/// An owned picture of a token.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub position: usize,
    pub position_length: usize,
    pub word_id: (u32, bool),
    pub details: Option<Vec<String>>,
}

pub fn tokenize(t: &Tokenizer, text: &str) -> Result<Vec<Tok>, String> {
    let toks = t.tokenize(text).map_err(|e| format!("tokenize({text:?}) failed: {e:?}"))?;
    Ok(toks
        .into_iter()
        .map(|mut k| Tok {
            text: k.text.to_string(),
            start: k.byte_start,
            end: k.byte_end,
            position: k.position,
            position_length: k.position_length,
            word_id: (k.word_id.0, k.word_id.1),
            details: k.get_details().map(|d| d.into_iter().map(|s| s.to_string()).collect()),
        })
        .collect())
}
