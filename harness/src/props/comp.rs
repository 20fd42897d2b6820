//! P14: compression.
use crate::runner::*;
use lindera_compress::compress;
use lindera_decompress::{decompress, Algorithm, CompressedData};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A byte string as a list of pieces, so that long and repetitive strings stay small and shrink well.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Chunk {
    Bytes(Vec<u8>),
    Run(u8, u32),
    Noise(u64, u32),
    Back(u16, u32),
    Text(String),
    /// bytes that look compressed or serialised themselves
    Magic(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CompCase {
    chunks: Vec<Chunk>,
    algo: u8,
    cuts: Vec<u16>,
    flips: Vec<(u16, u8)>,
}

fn algo(i: u8) -> (Algorithm, &'static str) {
    [(Algorithm::Deflate, "deflate"), (Algorithm::Zlib, "zlib"), (Algorithm::Gzip, "gzip"), (Algorithm::Raw, "raw")][i as usize % 4]
}

fn render(chunks: &[Chunk]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for c in chunks {
        match c {
            Chunk::Bytes(b) => v.extend(b),
            Chunk::Run(b, n) => v.extend(std::iter::repeat_n(*b, *n as usize)),
            Chunk::Noise(s, n) => {
                let mut x = *s | 1;
                for _ in 0..*n {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    v.push((x >> 24) as u8);
                }
            }
            Chunk::Back(d, n) => {
                for _ in 0..*n {
                    let b = if v.is_empty() { 0 } else { v[v.len() - 1 - (*d as usize % v.len())] };
                    v.push(b);
                }
            }
            Chunk::Text(s) => v.extend(s.as_bytes()),
            Chunk::Magic(k) => {
                let text = b"the quick brown fox jumps over the lazy dog";
                let a = algo(k / 16).0;
                match k % 16 {
                    0 => v.extend([0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff]),
                    1 => v.extend([0x1f, 0x8b]),
                    2 => v.extend([0x78, 0x9c]),
                    3 => v.extend([0x78, 0x01]),
                    4 => v.extend([0x78, 0xda]),
                    5 => v.extend(b"PK\x03\x04"),
                    6 => v.extend([0x28, 0xb5, 0x2f, 0xfd]),
                    7 => v.extend(b"BZh9"),
                    8 => v.extend([0xef, 0xbb, 0xbf]),
                    9 => v.extend([1, 0, 0, 0xff, 0xff]),
                    // a whole stream, as it is or serialised
                    10..=12 => v.extend(&bincode::serialize(&compress(text, a).unwrap()).unwrap()[12..]),
                    13 => v.extend(bincode::serialize(&compress(text, a).unwrap()).unwrap()),
                    14 => v.extend((*k as u32 / 16).to_le_bytes()),
                    _ => v.extend((*k as u64).to_le_bytes()),
                }
            }
        }
    }
    v
}

fn chunk(big: u32) -> BoxedStrategy<Chunk> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..40).prop_map(Chunk::Bytes),
        2 => (any::<u8>(), 0..big).prop_map(|(b, n)| Chunk::Run(b, n)),
        2 => (any::<u64>(), 0..big).prop_map(|(s, n)| Chunk::Noise(s, n)),
        2 => (any::<u16>(), 0..big).prop_map(|(d, n)| Chunk::Back(d, n)),
        1 => "\\PC{0,20}".prop_map(Chunk::Text),
        1 => any::<u8>().prop_map(Chunk::Magic),
    ]
    .boxed()
}

fn comp_case(n: usize, big: u32) -> BoxedStrategy<CompCase> {
    (vec(chunk(big), 0..=n), 0u8..4, vec(any::<u16>(), 1..4), vec((any::<u16>(), 0u8..8), 1..3))
        .prop_map(|(mut chunks, algo, cuts, flips)| {
            // every fourth one starts like a compressed file
            if cuts[0] % 4 == 1 {
                chunks.insert(0, Chunk::Magic((cuts[0] >> 8) as u8));
            }
            CompCase { chunks, algo, cuts, flips }
        })
        .boxed()
}

/// More data than fits 24 bits, mostly with little in it.
fn giant() -> BoxedStrategy<CompCase> {
    let one = prop_oneof![
        3 => (any::<u8>(), 16_777_200u32..20_000_000).prop_map(|(b, n)| Chunk::Run(b, n)),
        1 => (any::<u64>(), 16_777_200u32..17_500_000).prop_map(|(s, n)| Chunk::Noise(s, n)),
    ];
    (one, vec(chunk(400), 0..=3), 0u8..4, any::<bool>())
        .prop_map(|(one, mut chunks, algo, first)| {
            if first {
                chunks.insert(0, one);
            } else {
                chunks.push(one);
            }
            CompCase { chunks, algo, cuts: vec![], flips: vec![] }
        })
        .boxed()
}

/// The compressed bytes inside a serialised value: bincode writes the algorithm (4 bytes), the
/// length (8 bytes), then the bytes.
fn decode(ser: &[u8]) -> Result<Vec<u8>, String> {
    let c: CompressedData = bincode::deserialize(ser).map_err(|e| format!("{e}"))?;
    decompress(c).map_err(|e| format!("{e}"))
}

fn round_trip(c: &CompCase, o: &mut Obs) -> CheckResult {
    let data = render(&c.chunks);
    let (a, name) = algo(c.algo);
    o.label(name);
    o.label_if(data.is_empty(), "empty");
    o.label_if(data.len() > 65_536, "longer than a deflate window");
    o.label_if(data.len() > 4 << 20, "longer than 4 MiB");
    o.label_if(data.len() > 16 << 20, "longer than 16 MiB");
    o.nontrivial = !data.is_empty();
    let z = compress(&data, a).map_err(|e| format!("{name}: compressing {} bytes: {e}", data.len()))?;
    let ser = bincode::serialize(&z).map_err(|e| format!("{name}: {e}"))?;
    let same = |what: &str, got: Result<Vec<u8>, String>| match got {
        Ok(g) if g == data => Ok(()),
        Ok(g) => Err(format!("{name}, {what}: {} bytes came back as {} bytes (first difference at {:?})", data.len(), g.len(), g.iter().zip(&data).position(|(x, y)| x != y))),
        Err(e) => Err(format!("{name}, {what}: {} bytes do not come back: {e}", data.len())),
    };
    same("round trip", decompress(z.clone()).map_err(|e| e.to_string()))?;
    same("serialised round trip", decode(&ser))?;
    if data.len() < 2000 {
        let js = serde_json::to_string(&z).unwrap();
        let back: CompressedData = serde_json::from_str(&js).map_err(|e| e.to_string())?;
        same("JSON round trip", decompress(back).map_err(|e| e.to_string()))?;
    }
    let again = bincode::serialize(&compress(&data, a).unwrap()).unwrap();
    if again != ser {
        return Err(format!("{name}: compressing twice gives different data"));
    }
    o.steps = 4;
    Ok(())
}

fn adler32(data: &[u8]) -> u32 {
    let (a, b) = data.iter().fold((1u32, 0u32), |(a, b), x| {
        let a = (a + *x as u32) % 65521;
        (a, (b + a) % 65521)
    });
    b << 16 | a
}

fn crc32(data: &[u8]) -> u32 {
    !data.iter().fold(!0u32, |mut c, x| {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
        }
        c
    })
}

fn damaged(c: &CompCase, o: &mut Obs) -> CheckResult {
    let data = render(&c.chunks);
    let (a, name) = algo(c.algo);
    o.label(name);
    o.nontrivial = !data.is_empty();
    let ser = bincode::serialize(&compress(&data, a).map_err(|e| e.to_string())?).unwrap();
    let body = ser[12..].to_vec();
    for cut in &c.cuts {
        o.steps += 1;
        // the serialised value cut short
        let n = (*cut as usize * ser.len()) >> 16;
        if catch(|| decode(&ser[..n])).map_err(|p| format!("{name}: value cut to {n} of {} bytes {p}", ser.len()))?.is_ok() {
            return Err(format!("{name}: a serialised value cut to {n} of {} bytes was read", ser.len()));
        }
        // its data cut short
        let n = if cut % 4 == 0 { body.len().saturating_sub(1 + (*cut as usize / 4) % 9) } else { (*cut as usize * body.len()) >> 16 };
        if n == body.len() {
            continue;
        }
        let short = body[..n].to_vec();
        match catch(|| decompress(CompressedData::new(a, short))).map_err(|p| format!("{name}: data cut to {n} of {} bytes {p}", body.len()))? {
            Err(_) => o.label("truncation rejected"),
            Ok(g) if name == "raw" => {
                if g != data[..n] {
                    return Err(format!("{name}: data cut to {n} of {} bytes changes", body.len()));
                }
            }
            Ok(g) => {
                return Err(format!("{name}: data cut to {n} of {} bytes was accepted and gave {} of {} bytes", body.len(), g.len(), data.len()));
            }
        }
    }
    let mut b = body.clone();
    for (at, bit) in &c.flips {
        if !b.is_empty() {
            let at = (*at as usize * b.len()) >> 16;
            b[at] ^= 1 << bit;
        }
    }
    if b != body {
        o.steps += 1;
        match catch(|| decompress(CompressedData::new(a, b.clone()))).map_err(|p| format!("{name}: corrupted data {p}"))? {
            Err(_) => o.label("corruption rejected"),
            Ok(g) => {
                o.label_if(g == data, "corruption harmless");
                o.label_if(g != data, "corruption gives other bytes");
                // two flips can, once in a while, agree with the checksum in the corrupted data
                let sum = if name == "gzip" { crc32(&g).to_le_bytes() } else { adler32(&g).to_be_bytes() };
                let agrees = b.windows(4).any(|w| w == sum);
                o.label_if(g != data && agrees, "corruption that the checksum cannot tell");
                if g != data && !agrees && (name == "gzip" || name == "zlib") {
                    return Err(format!("{name}: corrupted data was accepted and gave other bytes, in spite of its checksum"));
                }
            }
        }
    }
    let mut s = ser.clone();
    for (at, bit) in &c.flips {
        let at = (*at as usize * s.len()) >> 16;
        s[at] ^= 1 << bit;
    }
    catch(|| decode(&s)).map_err(|p| format!("{name}: corrupted value {p}"))?.ok();
    Ok(())
}

pub fn p14() -> Property {
    Property {
        id: "P14",
        suites: vec![
            suite("round trip", "the data is not empty", 30_000, 1_000_000, || comp_case(6, 400), round_trip),
            suite("long", "the data is not empty", 300, 20_000, || comp_case(8, 200_000), round_trip),
            suite("huge", "the data is not empty", 8, 200, || comp_case(3, 9_000_000), round_trip),
            suite("giant", "the data is longer than 16 MiB", 4, 60, giant, round_trip),
            suite("damaged", "the data is not empty", 60_000, 3_000_000, || comp_case(6, 400), damaged),
        ],
        known: vec![],
        assumptions: vec![],
    }
}
