//! Reference model of tokenization, written from the properties.
use crate::dicts::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Word {
    Sys(usize),
    User(usize),
    Unk(usize),
}

#[derive(Clone, Debug)]
pub struct MEdge {
    pub start: usize,
    pub end: usize,
    pub word: Word,
    pub left: u16,
    pub right: u16,
    pub cost: i64,
    pub penalty: i64,
}

pub struct Model<'a> {
    pub spec: &'a DictSpec,
    pub user: &'a [URow],
    sys_by_surface: BTreeMap<String, Vec<usize>>,
    user_by_surface: BTreeMap<String, Vec<usize>>,
    longest: usize,
    conn: HashMap<(u16, u16), i16>,
}

pub fn sentences(text: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut b = 0;
    for (i, c) in text.char_indices() {
        if matches!(c, '。' | '、' | '\n' | '\t') {
            out.push(&text[b..i + c.len_utf8()]);
            b = i + c.len_utf8();
        }
    }
    if b < text.len() {
        out.push(&text[b..]);
    }
    out
}

pub fn kanji_only(s: &str) -> bool {
    s.chars().all(|c| ('\u{4E00}'..='\u{9FAF}').contains(&c))
}

/// categories of a character by char.def, in order of first mention
pub fn categories(spec: &DictSpec, c: char) -> Vec<usize> {
    let mut v = vec![];
    for (a, b, cs) in &spec.ranges {
        if (*a as u32..=*b as u32).contains(&(c as u32)) {
            for k in cs {
                if !v.contains(k) {
                    v.push(*k);
                }
            }
        }
    }
    if v.is_empty() {
        v.extend(spec.cats.iter().position(|c| c.name == "DEFAULT"));
    }
    v
}

pub fn penalty(mode: &ModeSpec, s: &str) -> i64 {
    let ModeSpec::Decompose { kt, kp, ot, op } = *mode else { return 0 };
    let n = s.len() / 3;
    if n <= kt {
        0
    } else if kanji_only(s) {
        (n - kt) as i64 * kp as i64
    } else if n > ot {
        (n - ot) as i64 * op as i64
    } else {
        0
    }
}

impl<'a> Model<'a> {
    pub fn new(spec: &'a DictSpec, user: &'a [URow]) -> Model<'a> {
        let mut sys: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (i, r) in spec.rows.iter().enumerate() {
            sys.entry(norm(spec.kind, &r.surface)).or_default().push(i);
        }
        let mut us: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (i, r) in user.iter().enumerate() {
            us.entry(r.surface().to_string()).or_default().push(i);
        }
        let conn = spec.costs.iter().map(|(f, b, c)| ((*f, *b), *c)).collect();
        let longest = sys.keys().chain(us.keys()).map(|k| k.len()).max().unwrap_or(0);
        Model { spec, user, sys_by_surface: sys, user_by_surface: us, longest, conn }
    }

    pub fn conn(&self, left_word_right: u16, right_word_left: u16) -> i64 {
        *self.conn.get(&(left_word_right, right_word_left)).unwrap_or(&i16::MAX) as i64
    }

    /// rows whose surface is exactly s
    pub fn rows(&self, s: &str) -> &[usize] {
        self.sys_by_surface.get(s).map(|v| &v[..]).unwrap_or(&[])
    }

    /// The word lattice of one sentence: all candidate words at positions reachable from the start.
    pub fn lattice(&self, s: &str, mode: &ModeSpec) -> Vec<MEdge> {
        let mut edges: Vec<MEdge> = vec![];
        let mut reach = vec![false; s.len() + 1];
        reach[0] = true;
        let search = matches!(mode, ModeSpec::Decompose { .. });
        let mut inside_unknown_until = 0usize;
        let starts: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        let cats: Vec<Vec<usize>> = s.chars().map(|c| categories(self.spec, c)).collect();
        for (ci, &st) in starts.iter().enumerate() {
            if !reach[st] {
                continue;
            }
            let mut found = false;
            for &en in starts[ci + 1..].iter().chain(std::iter::once(&s.len())) {
                if en - st > self.longest {
                    break;
                }
                let w = &s[st..en];
                for &u in self.user_by_surface.get(w).map(|v| &v[..]).unwrap_or(&[]) {
                    let (l, r, c, _) = self.user[u].meaning(self.spec.kind);
                    edges.push(MEdge { start: st, end: en, word: Word::User(u), left: l, right: r, cost: c as i64, penalty: penalty(mode, w) });
                    found = true;
                    reach[en] = true;
                }
                for &i in self.rows(w) {
                    let row = &self.spec.rows[i];
                    edges.push(MEdge { start: st, end: en, word: Word::Sys(i), left: row.left, right: row.right, cost: row.cost as i64, penalty: penalty(mode, w) });
                    found = true;
                    reach[en] = true;
                }
            }
            if !search && inside_unknown_until > st {
                continue;
            }
            for (ord, &cat) in cats[ci].iter().enumerate() {
                let d = &self.spec.cats[cat];
                if !(d.invoke || !found) {
                    continue;
                }
                let mut n = 1;
                if d.group {
                    while ci + n < starts.len() && cats[ci + n].get(ord) == Some(&cat) {
                        n += 1;
                    }
                }
                let en = if ci + n < starts.len() { starts[ci + n] } else { s.len() };
                let w = &s[st..en];
                for (k, (c, l, r, cost)) in self.spec.unk.iter().enumerate() {
                    if *c == cat {
                        edges.push(MEdge { start: st, end: en, word: Word::Unk(k), left: *l, right: *r, cost: *cost as i64, penalty: penalty(mode, w) });
                        reach[en] = true;
                    }
                }
                inside_unknown_until = en;
            }
        }
        edges
    }

    /// minimum cost over all paths start..end through the lattice (None: no path), and the number of
    /// distinct segmentations that reach it is not computed: ties are allowed.
    pub fn best(&self, s: &str, edges: &[MEdge]) -> Option<i64> {
        let mut ends: Vec<Vec<usize>> = vec![vec![]; s.len() + 1];
        let mut order: Vec<usize> = (0..edges.len()).collect();
        order.sort_by_key(|&i| edges[i].start);
        let mut cost: Vec<Option<i64>> = vec![None; edges.len()];
        for &i in &order {
            let e = &edges[i];
            let mut best = if e.start == 0 { Some(self.conn(0, e.left)) } else { None };
            for &p in &ends[e.start] {
                let q = &edges[p];
                if let Some(pc) = cost[p] {
                    let c = pc + q.penalty + self.conn(q.right, e.left);
                    if best.map(|b| c < b).unwrap_or(true) {
                        best = Some(c);
                    }
                }
            }
            cost[i] = best.map(|b| b + e.cost);
            ends[e.end].push(i);
        }
        ends[s.len()]
            .iter()
            .filter_map(|&p| cost[p].map(|c| c + edges[p].penalty + self.conn(edges[p].right, 0)))
            .min()
    }

    /// Which word a real token stands for, by its word id and details markers.
    pub fn identify(&self, t: &Tok) -> Result<Option<Word>, String> {
        if t.word_id.0 == u32::MAX {
            return Ok(None);
        }
        let d = t.details.as_ref().ok_or_else(|| format!("token {:?}: no details for a known word", t.text))?;
        let m = d.first().cloned().unwrap_or_default();
        let bad = || format!("token {:?} (word id {:?}) has details {d:?}, which belong to no row", t.text, t.word_id);
        if t.word_id.1 {
            let i: usize = m.strip_prefix('r').and_then(|x| x.parse().ok()).ok_or_else(bad)?;
            if i >= self.spec.rows.len() {
                return Err(bad());
            }
            Ok(Some(Word::Sys(i)))
        } else {
            let i: usize = m.strip_prefix('u').and_then(|x| x.parse().ok()).ok_or_else(bad)?;
            if i >= self.user.len() {
                return Err(bad());
            }
            Ok(Some(Word::User(i)))
        }
    }

    /// Minimum cost of reading the given tokens of sentence `s` (token offsets relative to it) as a
    /// path of the lattice; an error if they are not one.
    pub fn path_cost(&self, s: &str, base: usize, toks: &[Tok], edges: &[MEdge]) -> Result<i64, String> {
        let mut by: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
        for (i, e) in edges.iter().enumerate() {
            by.entry((e.start, e.end)).or_default().push(i);
        }
        let mut states: Vec<(u16, i64)> = vec![(0, 0)]; // (right id, cost so far incl. penalty)
        for t in toks {
            let id = self.identify(t)?;
            let span = (t.start.wrapping_sub(base), t.end.wrapping_sub(base));
            let opts: Vec<&MEdge> = by
                .get(&span)
                .map(|v| &v[..])
                .unwrap_or(&[])
                .iter()
                .map(|&i| &edges[i])
                .filter(|e| match (id, e.word) {
                    (None, Word::Unk(_)) => true,
                    (Some(w), x) => w == x,
                    _ => false,
                })
                .collect();
            if opts.is_empty() {
                return Err(format!(
                    "token {:?} at {}..{} ({:?}) of sentence {s:?} is not a candidate word there",
                    t.text, t.start, t.end, id
                ));
            }
            let mut next: Vec<(u16, i64)> = vec![];
            for e in opts {
                let c = states.iter().map(|(r, c)| c + self.conn(*r, e.left)).min().unwrap() + e.cost + e.penalty;
                next.push((e.right, c));
            }
            states = next;
        }
        Ok(states.iter().map(|(r, c)| c + self.conn(*r, 0)).min().unwrap())
    }
}
