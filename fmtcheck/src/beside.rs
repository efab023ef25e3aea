//! Several records at once: written in turns by writers that are all unfinished, read in turns through
//! iterators that are all unfinished, and one after another from one and the same place in memory.

use crate::gen::*;
use crate::gridstore::gridstore_format::*;
use pbt::{check, check_eq, Ctx, Src, R};

type Groups = Vec<(u8, Vec<(u32, usize)>)>;

#[derive(Clone, Debug)]
struct Rec {
    /// Numbers written first, which move everything after them.
    lead: usize,
    ids: Vec<Vec<u32>>,
    groups: Groups,
}

impl Rec {
    fn random(s: &mut Src) -> Rec {
        let mut sofar: Vec<Vec<u32>> = vec![];
        let ids = s.list(1, 6, 3, |s, _| {
            let l = resembling(s, &sofar, |s| s.num(1 << 32) as u32)
                .unwrap_or_else(|| s.list(0, 6, 2, |s, _| s.num(1 << 32) as u32));
            sofar.push(l.clone());
            l
        });
        let groups = s.list(0, 6, 3, |s, _| {
            (s.num(256) as u8, s.list(0, 8, 3, |s, _| (s.num(1 << 32) as u32, s.us(ids.len()))))
        });
        Rec { lead: if s.bool() { 0 } else { s.us(90) }, ids, groups }
    }
    /// With another value or an element elsewhere, of the same length; or the very same.
    fn like(&self, s: &mut Src) -> Rec {
        let mut r = self.clone();
        for _ in 0..s.us(4) {
            match s.us(6) {
                // an element moves to another list, so that the whole is as long as before
                4 => {
                    let (a, b) = (s.us(r.ids.len()), s.us(r.ids.len()));
                    if let Some(x) = r.ids[a].pop() {
                        r.ids[b].push(x);
                    }
                }
                5 if !r.groups.is_empty() => {
                    let (a, b) = (s.us(r.groups.len()), s.us(r.groups.len()));
                    if let Some(x) = r.groups[a].1.pop() {
                        r.groups[b].1.push(x);
                    }
                }
                0 => {
                    let k = s.us(r.ids.len());
                    let l = &mut r.ids[k];
                    if !l.is_empty() {
                        let i = s.us(l.len());
                        l[i] = s.num(1 << 32) as u32;
                    }
                }
                1 if !r.groups.is_empty() => {
                    let g = s.us(r.groups.len());
                    r.groups[g].0 = s.num(256) as u8;
                }
                2 if !r.groups.is_empty() => {
                    let g = s.us(r.groups.len());
                    let n = r.ids.len();
                    if !r.groups[g].1.is_empty() {
                        let i = s.us(r.groups[g].1.len());
                        r.groups[g].1[i] = (s.num(1 << 32) as u32, s.us(n));
                    }
                }
                _ => {
                    // lists of the same length change places
                    let (a, b) = (s.us(r.ids.len()), s.us(r.ids.len()));
                    if r.ids[a].len() == r.ids[b].len() {
                        r.ids.swap(a, b);
                    }
                }
            }
        }
        r
    }
    fn flat(&self) -> Vec<(u8, u32, Vec<u32>)> {
        self.groups
            .iter()
            .flat_map(|g| g.1.iter().map(move |c| (g.0, c.0, self.ids[c.1].clone())))
            .collect()
    }
}

/// A record being written.
struct Work {
    w: Writer,
    ids: Vec<FixedVecOffset<u32>>,
    groups: Vec<RelevScore>,
    all: Option<VarVecOffset<RelevScore>>,
    data: Option<Vec<u8>>,
}

impl Work {
    fn new(r: &Rec) -> Work {
        let mut w = Writer::new();
        for i in 0..r.lead {
            w.write_fixed_scalar(0x0101_0101u32 * (i as u32 % 200));
        }
        Work { w, ids: vec![], groups: vec![], all: None, data: None }
    }
    /// The next thing to write; whether that was the last.
    fn step(&mut self, r: &Rec) -> bool {
        if self.ids.len() < r.ids.len() {
            self.ids.push(self.w.write_fixed_vec(&r.ids[self.ids.len()]));
        } else if self.groups.len() < r.groups.len() {
            let g = &r.groups[self.groups.len()];
            let c: Vec<Coord> = g.1.iter().map(|c| Coord { coord: c.0, ids: self.ids[c.1] }).collect();
            self.groups.push(RelevScore { relev_score: g.0, coords: self.w.write_uniform_vec(&c) });
        } else if self.all.is_none() {
            self.all = Some(self.w.write_var_vec(&self.groups));
        } else if let Some(at) = self.all.take() {
            self.w.write_fixed_scalar(PhraseRecord { relev_scores: at });
            self.data = Some(std::mem::replace(&mut self.w, Writer::new()).finish());
            return true;
        }
        false
    }
}

/// Everything in a record, read as it is asked for.
fn walk<'a>(data: &'a [u8]) -> impl Iterator<Item = (u8, u32, Vec<u32>)> + 'a {
    let reader = Reader::new(data);
    let rec: PhraseRecord = read_phrase_record_from(&reader);
    read_var_vec_raw(data, rec.relev_scores).into_iter().flat_map(move |g| {
        let rs = g.relev_score;
        read_uniform_vec_raw(data, g.coords)
            .into_iter()
            .map(move |c| (rs, c.coord, read_fixed_vec_raw(data, c.ids).into_iter().take(100).collect()))
    })
}

pub fn beside(s: &mut Src, c: &mut Ctx) -> R {
    let mut recs = vec![Rec::random(s)];
    for _ in 0..s.ri(1, 3) {
        let r = if s.chance(2, 3) { s.pick(&recs).clone().like(s) } else { Rec::random(s) };
        recs.push(r);
    }
    c.input("records", &recs);
    c.nontrivial_if(recs.iter().filter(|r| r.flat().len() >= 2).count() >= 2);

    // written in turns, begun in turns
    let mut works: Vec<Option<Work>> = recs.iter().map(|_| None).collect();
    let mut left: Vec<usize> = (0..recs.len()).collect();
    while !left.is_empty() {
        let at = s.us(left.len());
        let k = left[at];
        let w = works[k].get_or_insert_with(|| Work::new(&recs[k]));
        if w.step(&recs[k]) {
            left.remove(at);
        }
    }
    let data: Vec<Vec<u8>> = works.into_iter().map(|w| w.unwrap().data.unwrap()).collect();

    // read in turns
    let want: Vec<_> = recs.iter().map(|r| r.flat()).collect();
    let mut its: Vec<_> = data.iter().map(|d| (walk(d), 0)).collect();
    let mut left: Vec<usize> = (0..recs.len()).collect();
    while !left.is_empty() {
        let at = s.us(left.len());
        let k = left[at];
        let (it, n) = &mut its[k];
        let got = it.next();
        check!(
            got.as_ref() == want[k].get(*n),
            "read in turns: record {}, coordinate {} with its group and ids: got {:?} expected {:?}",
            k,
            n,
            got,
            want[k].get(*n)
        );
        *n += 1;
        if got.is_none() {
            left.remove(at);
        }
    }
    drop(its);

    // one after another at the same place
    let mut place: Vec<u8> = Vec::with_capacity(data.iter().map(|d| d.len()).max().unwrap());
    for _ in 0..recs.len() + s.us(3) {
        let k = s.us(recs.len());
        place.clear();
        place.extend_from_slice(&data[k]);
        let far = want[k].len() + 1;
        // not always to the end
        let n = if s.chance(1, 4) { s.us(far) } else { far };
        let got: Vec<_> = walk(&place).take(n).collect();
        check_eq!(got, want[k].iter().take(n).cloned().collect::<Vec<_>>(), "record {} read where others were", k);
    }
    Ok(())
}
