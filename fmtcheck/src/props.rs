use crate::beside::beside;
use crate::gen::*;
use crate::gridstore::gridstore_format::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use std::sync::Arc;

pub const ASSUME: &[&str] = &[
    "buffers below 4 GiB (pointers are 32-bit by design)",
    "the module is compiled in place from /repo with the crate versions of /repo/Cargo.lock",
];

/// Either kind of owner behind a reader.
pub enum Owner {
    Vec(Vec<u8>),
    Arc(Arc<[u8]>),
}
impl AsRef<[u8]> for Owner {
    fn as_ref(&self) -> &[u8] {
        match self {
            Owner::Vec(v) => v,
            Owner::Arc(v) => v,
        }
    }
}

pub fn owner(s: &mut Src, data: Vec<u8>) -> Owner {
    if data.len() < 1 << 20 && s.chance(1, 3) {
        Owner::Arc(data.into())
    } else {
        Owner::Vec(data)
    }
}

pub fn label_size(c: &mut Ctx, n: usize) {
    c.label(match n {
        0..=255 => "buffer <=255 B",
        256..=65535 => "buffer 256 B-64 KiB",
        65536..=16777215 => "buffer 64 KiB-16 MiB",
        16777216..=0x7fff_ffff => "buffer 16 MiB-2 GiB",
        _ => "buffer >2 GiB",
    });
}

fn first_diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!(
        "lengths {} and {}, first difference at {}: got {:?} expected {:?}",
        a.len(),
        b.len(),
        i,
        a.get(i),
        b.get(i)
    )
}

fn same_ids(got: (usize, Vec<u32>), want: &Ids, what: &str) -> R {
    let want = want.values();
    check!(got.0 == want.len(), "{}: length {} instead of {}", what, got.0, want.len());
    check!(got.1 == want, "{}: {}", what, first_diff(&got.1, &want));
    Ok(())
}

/// An id list, perhaps like one before it.
fn ids_like(s: &mut Src, scale: Scale, sofar: &mut Vec<Vec<u32>>) -> Ids {
    let l = match resembling(s, sofar, |s| s.num(1 << 32) as u32) {
        Some(v) => Ids::Listed(v),
        None => ids(s, scale),
    };
    if let Ids::Listed(v) = &l {
        sofar.push(v.clone());
    }
    l
}

// ---------------------------------------------------------------- C01

pub type Pool = Vec<(Ids, PadPlan)>;
/// The relevance/score byte, the coordinates with the position of their id list in the pool, and what
/// goes before the list of coordinates.
pub type Groups = Vec<(u8, Vec<(u32, usize)>, PadPlan)>;

pub struct Plan {
    pub pool: Pool,
    pub late: bool,
    pub share: bool,
    pub groups: Groups,
    pub pad_rs: PadPlan,
    pub pad_rec: PadPlan,
    pub how: usize,
}

/// What a record is to hold and where.
pub fn record_plan(s: &mut Src, c: &mut Ctx, scale: Scale) -> Plan {
    // a pool of id lists, used by any number of coordinates
    let mut sofar = Vec::new();
    let pool: Pool =
        s.list(0, 12, 3, |s, _| (ids_like(s, scale, &mut sofar), pad_plan(s, scale)));
    let late = s.chance(1, 3); // write an id list only when a coordinate first needs it
    let share = !s.chance(1, 4); // or write it again for every coordinate
    let groups: Groups = s.list(0, 16, 3, |s, _| {
        let rs = s.num(256) as u8;
        let coords = if pool.is_empty() {
            Vec::new()
        } else {
            s.list(0, 30, 3, |s, _| (s.num(1 << 32) as u32, s.us(pool.len())))
        };
        (rs, coords, pad_plan(s, scale))
    });
    let pad_rs = pad_plan(s, scale);
    let pad_rec = pad_plan(s, scale);
    let how = s.us(36);
    c.input("id lists", &pool);
    c.input("groups", &groups);
    c.input("layout", &(late, share, &pad_rs, &pad_rec));
    let ncoords: usize = groups.iter().map(|g| g.1.len()).sum();
    c.nontrivial_if(groups.len() >= 2 && ncoords >= 2 && groups.iter().any(|g| g.1.iter().any(|x| pool[x.1].0.len() > 0)));
    c.label_if(groups.iter().any(|g| g.1.is_empty()), "empty coordinate list");
    c.label_if(pool.iter().any(|p| p.0.len() >= 128), "id list >=128");
    Plan { pool, late, share, groups, pad_rs, pad_rec, how }
}

/// The bytes of a record, by the `Writer`.
pub fn write_plan(p: &Plan) -> Vec<u8> {
    let Plan { pool, late, share, groups, pad_rs, pad_rec, .. } = p;
    let mut w = W::new();
    let mut written: Vec<Option<FixedVecOffset<u32>>> = vec![None; pool.len()];
    if !*late {
        for (i, (list, p)) in pool.iter().enumerate() {
            pad(&mut w, p);
            written[i] = Some(w.write_fixed_vec(&list.values()));
        }
    }
    let mut rs_list = Vec::new();
    for (rs, coords, p) in groups {
        let mut enc = Vec::new();
        for (coord, li) in coords {
            let at = match written[*li] {
                Some(at) if *share || !*late => at,
                _ => {
                    pad(&mut w, &pool[*li].1);
                    w.write_fixed_vec(&pool[*li].0.values())
                }
            };
            written[*li] = Some(at);
            enc.push(Coord { coord: *coord, ids: at });
        }
        pad(&mut w, p);
        let at = w.write_uniform_vec(&enc);
        rs_list.push(RelevScore { relev_score: *rs, coords: at });
    }
    pad(&mut w, pad_rs);
    let at = w.write_var_vec(&rs_list);
    pad(&mut w, pad_rec);
    w.write_record(PhraseRecord { relev_scores: at });
    w.finish()
}

/// Reads a record in one of the ways there are and compares it.
pub fn check_plan(own: &Owner, p: &Plan) -> R {
    let Plan { pool, groups, how, .. } = p;
    let how = *how;
    let raw: &[u8] = own.as_ref();
    let reader = Reader::new(own);
    let rec = if how % 2 == 0 { read_phrase_record_from(&reader) } else { reader.read_root() };
    let rs_vec = if how & 2 == 0 {
        reader.read_var_vec(rec.relev_scores)
    } else {
        read_var_vec_raw(raw, rec.relev_scores)
    };
    check_eq!(rs_vec.len(), groups.len(), "number of groups");
    let got_rs: Vec<RelevScore> = if how % 3 == 0 {
        rs_vec.iter().take(groups.len() + 2).collect()
    } else {
        rs_vec.into_iter().take(groups.len() + 2).collect()
    };
    check_eq!(got_rs.len(), groups.len(), "number of groups iterated");
    for (gi, (g, (rs, coords, _))) in got_rs.iter().zip(groups).enumerate() {
        check_eq!(g.relev_score, *rs, "relevance/score of group {}", gi);
        let cv = if how % 4 < 2 {
            reader.read_uniform_vec(g.coords)
        } else {
            read_uniform_vec_raw(raw, g.coords)
        };
        check_eq!(cv.len(), coords.len(), "number of coordinates of group {}", gi);
        let got: Vec<Coord> = match how % 3 {
            0 => cv.iter().take(coords.len() + 2).collect(),
            1 => cv.into_iter().take(coords.len() + 2).collect(),
            _ => (0..coords.len()).map(|i| cv.get(i)).collect(),
        };
        check_eq!(got.len(), coords.len(), "number of coordinates iterated of group {}", gi);
        for (ci, (gc, (coord, li))) in got.iter().zip(coords).enumerate() {
            check_eq!(gc.coord, *coord, "coordinate {} of group {}", ci, gi);
            let want = &pool[*li].0;
            let r = read_ids(&reader, raw, gc.ids, how + ci, want.len() + 2);
            same_ids(r, want, &format!("ids of coordinate {} of group {}", ci, gi))?;
        }
    }
    Ok(())
}

fn record(s: &mut Src, c: &mut Ctx, scale: Scale) -> R {
    let p = record_plan(s, c, scale);
    let data = write_plan(&p);
    label_size(c, data.len());
    check_plan(&owner(s, data), &p)
}

fn record_tiny(s: &mut Src, c: &mut Ctx) -> R {
    record(s, c, Scale::Tiny)
}
fn record_small(s: &mut Src, c: &mut Ctx) -> R {
    record(s, c, Scale::Small)
}
fn record_medium(s: &mut Src, c: &mut Ctx) -> R {
    record(s, c, Scale::Medium)
}
fn record_huge(s: &mut Src, c: &mut Ctx) -> R {
    record(s, c, Scale::Huge)
}
fn record_extreme(s: &mut Src, c: &mut Ctx) -> R {
    record(s, c, Scale::Extreme)
}

/// A record laid out the way the store builder does it, with many lists and no padding.
fn record_dense(s: &mut Src, c: &mut Ctx) -> R {
    let ngroups = s.ri(1, 64);
    let per = s.len(1, 3000, 200);
    let seed = s.any();
    let maxids = s.ri(0, 9);
    c.input("dense record", &(ngroups, per, seed, maxids));
    let mut r = pbt::src::Rng::new(seed);
    let mut w = W::new();
    let mut model: Vec<(u8, Vec<(u32, Vec<u32>)>)> = Vec::new();
    let mut rs_list = Vec::new();
    for g in 0..ngroups {
        let rs = (255 - g * 4 + r.below(4) as usize) as u8;
        let n = r.below(per as u64 + 1) as usize;
        let mut coords = Vec::with_capacity(n);
        let mut enc = Vec::with_capacity(n);
        for _ in 0..n {
            let k = r.below(maxids as u64 + 1);
            let list: Vec<u32> = (0..k).map(|_| r.next() as u32).collect();
            let coord = r.next() as u32;
            enc.push(Coord { coord, ids: w.write_fixed_vec(&list) });
            coords.push((coord, list));
        }
        rs_list.push(RelevScore { relev_score: rs, coords: w.write_uniform_vec(&enc) });
        model.push((rs, coords));
    }
    let at = w.write_var_vec(&rs_list);
    w.write_record(PhraseRecord { relev_scores: at });
    let data = w.finish();
    label_size(c, data.len());
    c.nontrivial_if(data.len() > 255);
    let reader = Reader::new(data.as_slice());
    let rec: PhraseRecord = read_phrase_record_from(&reader);
    let mut got: Vec<(u8, Vec<(u32, Vec<u32>)>)> = Vec::new();
    for g in read_var_vec_raw(&data, rec.relev_scores).into_iter().take(ngroups + 1) {
        let coords = read_uniform_vec_raw(&data, g.coords)
            .into_iter()
            .take(per + 1)
            .map(|cc| {
                let v = read_fixed_vec_raw(&data, cc.ids);
                (cc.coord, v.into_iter().take(maxids + 2).collect())
            })
            .collect();
        got.push((g.relev_score, coords));
    }
    check!(got.len() == model.len(), "{} groups instead of {}", got.len(), model.len());
    for (i, (g, m)) in got.iter().zip(&model).enumerate() {
        check!(g.0 == m.0, "relevance/score of group {}: {} instead of {}", i, g.0, m.0);
        check!(g.1 == m.1, "group {}: {}", i, first_diff(&g.1, &m.1));
    }
    Ok(())
}

/// Lengths at which a length prefix, or a counter of a fixed width, would change its behaviour.
const LENGTH_BASES: [usize; 6] = [128, 256, 1 << 14, 1 << 15, 1 << 16, 1 << 21];
pub const LENGTHS: usize = 6 * 5;
pub fn length_around(i: usize) -> usize {
    LENGTH_BASES[i / 5] - 2 + i % 5
}

/// Where the one element that differs from all the others goes in a list of `n`.
fn odd_position(i: usize, n: usize) -> usize {
    match i {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        _ => n - 1 - (n - 1) % 256, // the last one whose position ends in a zero byte
    }
}

/// A record with one group of very many coordinates between two small groups, or with very many
/// groups; the number is around each power of two at which the encoding of the length changes.
fn record_lengths(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(2 * LENGTHS);
    let many_groups = i >= LENGTHS;
    let n = length_around(i % LENGTHS);
    c.input("length", &n);
    c.input("very many", &(if many_groups { "groups" } else { "coordinates" }));
    c.nontrivial_if(true);
    let mut w = W::new();
    let near = w.write_fixed_vec(&[1u32, 2, 3]);
    w.pad_to(if i % 2 == 0 { 200 } else { 70_000 }, 0x80);
    let far = w.write_fixed_vec(&[9u32]);
    let odd = odd_position(i % 4, n);
    let coord_of = |k: usize| (n as u32).wrapping_sub(k as u32).wrapping_mul(0x0001_0003);
    let short: Vec<Coord> = (0..3).map(|k| Coord { coord: 7 - k, ids: near }).collect();
    let first = w.write_uniform_vec(&short);
    let mut groups = vec![RelevScore { relev_score: 0xff, coords: first }];
    if many_groups {
        let second = w.write_uniform_vec(&short[..1]);
        groups.clear();
        for k in 0..n {
            let coords = if k == odd { second } else { first };
            groups.push(RelevScore { relev_score: coord_of(k) as u8, coords });
        }
    } else {
        let long: Vec<Coord> = (0..n)
            .map(|k| Coord { coord: coord_of(k), ids: if k == odd { far } else { near } })
            .collect();
        groups.push(RelevScore { relev_score: 0x42, coords: w.write_uniform_vec(&long) });
        groups.push(RelevScore { relev_score: 0x01, coords: w.write_uniform_vec(&short[1..]) });
    }
    let at = w.write_var_vec(&groups);
    w.write_record(PhraseRecord { relev_scores: at });
    let data = w.finish();
    label_size(c, data.len());
    let reader = Reader::new(data.as_slice());
    let rec: PhraseRecord = reader.read_root();
    let v = reader.read_var_vec(rec.relev_scores);
    check_eq!(v.len(), groups.len(), "number of groups");
    let got: Vec<RelevScore> = v.iter().take(groups.len() + 2).collect();
    check_eq!(got.len(), groups.len(), "number of groups iterated");
    let ids_at = |cc: &Coord| -> Vec<u32> {
        read_fixed_vec_raw(&data, cc.ids).into_iter().take(5).collect()
    };
    if many_groups {
        for (k, g) in got.iter().enumerate() {
            check!(g.relev_score == coord_of(k) as u8, "byte of group {}: {}", k, g.relev_score);
            let want: &[u32] = if k == odd { &[7] } else { &[7, 6, 5] };
            let cv: Vec<u32> =
                reader.read_uniform_vec(g.coords).into_iter().take(5).map(|x| x.coord).collect();
            check!(cv == want, "coordinates of group {}: {:?} instead of {:?}", k, cv, want);
        }
        return Ok(());
    }
    let bytes: Vec<u8> = got.iter().map(|g| g.relev_score).collect();
    check_eq!(bytes, vec![0xff, 0x42, 0x01], "bytes of the groups");
    for (gi, len) in [3, n, 2].iter().enumerate() {
        let cv = reader.read_uniform_vec(got[gi].coords);
        check_eq!(cv.len(), *len, "number of coordinates of group {}", gi);
        let all: Vec<Coord> = cv.into_iter().take(len + 2).collect();
        check_eq!(all.len(), *len, "number of coordinates iterated of group {}", gi);
        for (k, cc) in all.iter().enumerate() {
            let want = match gi {
                0 => 7 - k as u32,
                1 => coord_of(k),
                _ => 6 - k as u32,
            };
            check!(cc.coord == want, "coordinate {} of group {}: {}", k, gi, cc.coord);
            let want: &[u32] = if gi == 1 && k == odd { &[9] } else { &[1, 2, 3] };
            let ids = ids_at(cc);
            check!(ids == want, "ids of coordinate {} of group {}: {:?}", k, gi, ids);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn id_lists(s: &mut Src, c: &mut Ctx, scale: Scale) -> R {
    let mut sofar = Vec::new();
    let lists: Vec<(PadPlan, Ids)> =
        s.list(1, 20, 5, |s, _| (pad_plan(s, scale), ids_like(s, scale, &mut sofar)));
    let how = s.us(30);
    let tail = pad_plan(s, Scale::Tiny);
    c.input("lists", &lists);
    c.input("after", &tail);
    let mut w = W::new();
    let mut at = Vec::new();
    for (p, l) in &lists {
        pad(&mut w, p);
        at.push(w.write_fixed_vec(&l.values()));
    }
    pad(&mut w, &tail);
    let data = w.finish();
    label_size(c, data.len());
    c.nontrivial_if(lists.len() >= 2 && lists.iter().any(|l| l.1.len() > 1));
    c.label_if(lists.iter().any(|l| l.1.len() >= 128), "list >=128");
    c.label_if(lists.iter().any(|l| l.1.len() >= 16384), "list >=16384");
    c.label_if(lists.iter().any(|l| l.1.len() == 0), "empty list");
    let own = owner(s, data);
    let raw = own.as_ref();
    let reader = Reader::new(&own);
    // read in an order unrelated to the order of writing
    let n = lists.len();
    let step = 1 + how % n.max(1);
    for k in 0..n {
        let i = (k * step + how) % n;
        for w in 0..6 {
            let r = read_ids(&reader, raw, at[i], w, lists[i].1.len() + 2);
            same_ids(r, &lists[i].1, &format!("list {} (way {})", i, w))?;
        }
        // by position in any order, through one borrowed view and a copy of it
        let v = reader.read_fixed_vec(at[i]);
        let copy = v;
        let want = lists[i].1.values();
        for (p, x) in want.iter().enumerate().rev().take(50) {
            check!(copy.get(p) == *x, "list {} position {}: {} instead of {}", i, p, copy.get(p), x);
        }
        let from_iter: Vec<u32> = v.iter().take(want.len() + 1).collect();
        check!(from_iter == want, "list {}: second iteration: {}", i, first_diff(&from_iter, &want));
        if want.len() < 100 {
            let what = format!("list {}", i);
            iterates(|| v.iter(), |x| x, &want, how, &what)?;
            iterates(|| v.into_iter(), |x| x, &want, how + 1, &what)?;
        }
    }
    Ok(())
}
fn id_lists_tiny(s: &mut Src, c: &mut Ctx) -> R {
    id_lists(s, c, Scale::Tiny)
}
fn id_lists_small(s: &mut Src, c: &mut Ctx) -> R {
    id_lists(s, c, Scale::Small)
}
fn id_lists_medium(s: &mut Src, c: &mut Ctx) -> R {
    id_lists(s, c, Scale::Medium)
}
fn id_lists_huge(s: &mut Src, c: &mut Ctx) -> R {
    id_lists(s, c, Scale::Huge)
}
/// Every list length around the points where the length prefix grows, in the middle of a buffer.
fn id_list_lengths(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(300 + 4 * 41);
    let n = match i {
        0..=299 => i,
        _ => [1 << 14, 1 << 15, 1 << 16, 1 << 21][(i - 300) / 41] - 20 + (i - 300) % 41,
    };
    let lists = [
        Ids::Listed(vec![1, 2]),
        Ids::Run { n, start: 0xdead_0000, step: 0x0101_0107 },
        Ids::Listed(vec![3]),
    ];
    c.input("length", &n);
    c.nontrivial_if(n > 1);
    let mut w = W::new();
    let at: Vec<_> = lists.iter().map(|l| w.write_fixed_vec(&l.values())).collect();
    let data = w.finish();
    let reader = Reader::new(data.as_slice());
    for (k, l) in lists.iter().enumerate() {
        same_ids(read_ids(&reader, &data, at[k], i, l.len() + 1), l, &format!("list {} of 3", k))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn coord_lists(s: &mut Src, c: &mut Ctx, scale: Scale) -> R {
    let pool: Vec<(PadPlan, Ids)> = s.list(1, 10, 4, |s, _| {
        let p = pad_plan(s, scale);
        let l = Ids::Listed(s.list(0, 5, 2, |s, _| s.num(1 << 32) as u32));
        (p, l)
    });
    let order_rev = s.bool(); // the order in which the pool is laid out
    let mut sofar: Vec<Vec<(u32, usize)>> = Vec::new();
    let lists: Vec<(PadPlan, Vec<(u32, usize)>)> = s.list(1, 5, 2, |s, _| {
        let p = pad_plan(s, Scale::Tiny);
        let like = resembling(s, &sofar, |s| (s.num(1 << 32) as u32, s.us(pool.len())));
        let l = if let Some(l) = like {
            l
        } else if s.chance(1, 12) {
            // long lists
            let n = s.ri(120, 400);
            let (st, k) = (s.num(1 << 32) as u32, s.us(pool.len()));
            (0..n).map(|i| (st.wrapping_sub(i as u32 * 3), if i == n / 2 { k } else { 0 })).collect()
        } else {
            s.list(0, 30, 4, |s, _| (s.num(1 << 32) as u32, s.us(pool.len())))
        };
        sofar.push(l.clone());
        (p, l)
    });
    let how = s.us(6);
    let tail = s.us(3);
    c.input("bytes after", &tail);
    c.input("id lists", &pool);
    c.input("reverse layout", &order_rev);
    c.input("coordinate lists", &lists);

    let mut w = W::new();
    let mut at: Vec<Option<FixedVecOffset<u32>>> = vec![None; pool.len()];
    let order: Vec<usize> =
        if order_rev { (0..pool.len()).rev().collect() } else { (0..pool.len()).collect() };
    let mut handles = Vec::new();
    // half of the pool goes between the coordinate lists
    let (early, late) = order.split_at((pool.len() + 1) / 2);
    for i in early.iter().chain(late) {
        pad(&mut w, &pool[*i].0);
        at[*i] = Some(w.write_fixed_vec(&pool[*i].1.values()));
    }
    for (p, l) in &lists {
        pad(&mut w, p);
        let enc: Vec<Coord> =
            l.iter().map(|(coord, i)| Coord { coord: *coord, ids: at[*i].unwrap() }).collect();
        handles.push(w.write_uniform_vec(&enc));
    }
    // followed by nothing, or by something that is not part of any list
    w.pad_by([0, 1, 4][tail], 0xff);
    let data = w.finish();
    label_size(c, data.len());
    c.nontrivial_if(lists.iter().any(|l| l.1.len() >= 2));
    c.label_if(lists.iter().any(|l| l.1.is_empty()), "empty coordinate list");
    c.label_if(lists.iter().any(|l| l.1.len() >= 128), "coordinate list >=128");
    let own = owner(s, data);
    let raw = own.as_ref();
    let reader = Reader::new(&own);
    for (li, (_, l)) in lists.iter().enumerate() {
        for way in 0..4 {
            let v = if (how + way) % 2 == 0 {
                reader.read_uniform_vec(handles[li])
            } else {
                read_uniform_vec_raw(raw, handles[li])
            };
            check_eq!(v.len(), l.len(), "length of coordinate list {}", li);
            let got: Vec<Coord> = match way {
                0 => v.iter().take(l.len() + 2).collect(),
                1 => v.into_iter().take(l.len() + 2).collect(),
                2 => (0..l.len()).map(|i| v.get(i)).collect(),
                _ => {
                    let mut x: Vec<Coord> = (0..l.len()).rev().map(|i| v.get(i)).collect();
                    x.reverse();
                    x
                }
            };
            check_eq!(got.len(), l.len(), "coordinates iterated of list {}", li);
            for (k, (g, (coord, i))) in got.iter().zip(l).enumerate() {
                check_eq!(g.coord, *coord, "coordinate {} of list {}", k, li);
                let want = &pool[*i].1;
                let r = read_ids(&reader, raw, g.ids, how, want.len() + 2);
                same_ids(r, want, &format!("ids behind coordinate {} of list {}", k, li))?;
            }
        }
        let v = reader.read_uniform_vec(handles[li]);
        let want: Vec<u32> = l.iter().map(|x| x.0).collect();
        let what = format!("coordinate list {}", li);
        iterates(|| v.iter(), |x| x.coord, &want, how * 7, &what)?;
        iterates(|| v.into_iter(), |x| x.coord, &want, how * 5 + 1, &what)?;
    }
    Ok(())
}
fn coord_lists_tiny(s: &mut Src, c: &mut Ctx) -> R {
    coord_lists(s, c, Scale::Tiny)
}
fn coord_lists_small(s: &mut Src, c: &mut Ctx) -> R {
    coord_lists(s, c, Scale::Small)
}
fn coord_lists_medium(s: &mut Src, c: &mut Ctx) -> R {
    coord_lists(s, c, Scale::Medium)
}
fn coord_lists_huge(s: &mut Src, c: &mut Ctx) -> R {
    coord_lists(s, c, Scale::Huge)
}
fn coord_lists_extreme(s: &mut Src, c: &mut Ctx) -> R {
    coord_lists(s, c, Scale::Extreme)
}

/// One far element at every position of lists of every length up to 12, for every pointer width.
fn coord_far_position(s: &mut Src, c: &mut Ctx) -> R {
    // (length, position) pairs: 1 + 2 + ... + 12 = 78; 4 widths x 3 offsets around each boundary
    let k = s.us(78 * 4 * 5);
    let (pair, rest) = (k / 20, k % 20);
    let (width, delta) = (rest / 5, rest % 5);
    let (mut len, mut pos) = (1, pair);
    while pos >= len {
        pos -= len;
        len += 1;
    }
    let bounds = [1usize << 7, 1 << 8, 1 << 16, 1 << 24];
    let target = bounds[width] + delta - 2;
    c.input("length, far position, far distance", &(len, pos, target));
    c.nontrivial_if(len >= 2);
    let mut w = W::new();
    let near = w.write_fixed_vec(&[11u32, 12]);
    w.pad_to(target, 0xff);
    let far = w.write_fixed_vec(&[21u32]);
    let enc: Vec<Coord> = (0..len)
        .map(|i| Coord { coord: 1000 - i as u32, ids: if i == pos { far } else { near } })
        .collect();
    let h = w.write_uniform_vec(&enc);
    let data = w.finish();
    let v = read_uniform_vec_raw(&data, h);
    check_eq!(v.len(), len, "length");
    for i in 0..len {
        let g = v.get(i);
        check_eq!(g.coord, 1000 - i as u32, "coordinate {}", i);
        let l: Vec<u32> = read_fixed_vec_raw(&data, g.ids).into_iter().take(4).collect();
        let want = if i == pos { vec![21] } else { vec![11, 12] };
        check_eq!(l, want, "ids behind coordinate {}", i);
    }
    Ok(())
}

/// Lists of coordinates of every length around the powers of two, every kind of reading.
fn coord_list_lengths(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(4 * LENGTHS);
    let (which, place) = (i / 4, i % 4);
    let n = length_around(which);
    let odd = odd_position(place, n);
    c.input("length, position of the far element", &(n, odd));
    c.nontrivial_if(true);
    let mut w = W::new();
    let near = w.write_fixed_vec(&[11u32, 12]);
    w.pad_to([60, 300, 66_000, 17_000_000][(which + place) % 4], 0xff);
    let far = w.write_fixed_vec(&[21u32]);
    let coord_of = |k: usize| 0xfff0_0000u32.wrapping_sub(k as u32 * 5);
    let enc: Vec<Coord> = (0..n)
        .map(|k| Coord { coord: coord_of(k), ids: if k == odd { far } else { near } })
        .collect();
    let h = w.write_uniform_vec(&enc);
    let after = w.write_uniform_vec(&enc[..1]);
    let data = w.finish();
    label_size(c, data.len());
    let reader = Reader::new(data.as_slice());
    let v = reader.read_uniform_vec(h);
    check_eq!(v.len(), n, "length");
    let looped: Vec<Coord> = match place {
        0 => v.iter().take(n + 2).collect(),
        _ => v.into_iter().take(n + 2).collect(),
    };
    check_eq!(looped.len(), n, "coordinates iterated");
    for (k, it) in looped.iter().enumerate().rev() {
        let by = v.get(k);
        for (how, g) in [("iteration", it), ("position", &by)].iter() {
            check!(g.coord == coord_of(k), "coordinate {} by {}: {}", k, how, g.coord);
            let ids: Vec<u32> = read_fixed_vec_raw(&data, g.ids).into_iter().take(4).collect();
            let want: &[u32] = if k == odd { &[21] } else { &[11, 12] };
            check!(ids == want, "ids behind coordinate {} by {}: {:?}", k, how, ids);
        }
    }
    let last: Vec<u32> = read_uniform_vec_raw(&data, after).iter().take(3).map(|x| x.coord).collect();
    check_eq!(last, vec![coord_of(0)], "the list after it");
    Ok(())
}

// ---------------------------------------------------------------- C04

fn group_lists(s: &mut Src, c: &mut Ctx, scale: Scale) -> R {
    // coordinate lists, told apart by their contents
    let pool: Vec<(PadPlan, Vec<u32>)> = s.list(1, 8, 3, |s, _| {
        (pad_plan(s, scale), s.list(0, 4, 2, |s, _| s.num(1 << 32) as u32))
    });
    let mut sofar: Vec<Vec<(u8, usize)>> = Vec::new();
    let lists: Vec<(PadPlan, Vec<(u8, usize)>)> = s.list(1, 4, 2, |s, _| {
        let p = pad_plan(s, Scale::Tiny);
        let like = resembling(s, &sofar, |s| (s.num(256) as u8, s.us(pool.len())));
        let l = if let Some(l) = like {
            l
        } else if s.chance(1, 10) {
            let n = s.ri(120, 300);
            let k = s.us(pool.len());
            (0..n).map(|i| ((255 - i % 256) as u8, if i % 3 == 1 { k } else { 0 })).collect()
        } else {
            s.list(0, 24, 4, |s, _| (s.num(256) as u8, s.us(pool.len())))
        };
        sofar.push(l.clone());
        (p, l)
    });
    let (how, tail) = (s.us(30), s.us(3));
    c.input("bytes after", &tail);
    c.input("coordinate lists", &pool);
    c.input("group lists", &lists);
    let mut w = W::new();
    let ids = w.write_fixed_vec(&[7u32]);
    let mut at = Vec::new();
    for (p, coords) in &pool {
        pad(&mut w, p);
        let enc: Vec<Coord> = coords.iter().map(|x| Coord { coord: *x, ids }).collect();
        at.push(w.write_uniform_vec(&enc));
    }
    let mut handles = Vec::new();
    for (p, l) in &lists {
        pad(&mut w, p);
        let enc: Vec<RelevScore> =
            l.iter().map(|(rs, i)| RelevScore { relev_score: *rs, coords: at[*i] }).collect();
        handles.push(w.write_var_vec(&enc));
    }
    w.pad_by([0, 1, 4][tail], 0xff);
    let data = w.finish();
    label_size(c, data.len());
    c.nontrivial_if(lists.iter().any(|l| l.1.len() >= 2));
    c.label_if(lists.iter().any(|l| l.1.len() >= 128), "group list >=128");
    c.label_if(
        lists.iter().any(|l| l.1.iter().map(|x| x.1).collect::<std::collections::HashSet<_>>().len() > 1),
        "different pointers in one list",
    );
    let own = owner(s, data);
    let raw = own.as_ref();
    let reader = Reader::new(&own);
    for (li, (_, l)) in lists.iter().enumerate() {
        for way in 0..4 {
            let v = if way < 2 {
                reader.read_var_vec(dup(&handles[li]))
            } else {
                read_var_vec_raw(raw, dup(&handles[li]))
            };
            check_eq!(v.len(), l.len(), "length of group list {}", li);
            let got: Vec<RelevScore> = if way % 2 == 0 {
                v.iter().take(l.len() + 2).collect()
            } else {
                v.into_iter().take(l.len() + 2).collect()
            };
            check_eq!(got.len(), l.len(), "groups iterated of list {}", li);
            for (k, (g, (rs, i))) in got.iter().zip(l).enumerate() {
                check_eq!(g.relev_score, *rs, "relevance/score {} of list {}", k, li);
                let cv = reader.read_uniform_vec(g.coords);
                let cs: Vec<u32> =
                    cv.into_iter().take(pool[*i].1.len() + 2).map(|c| c.coord).collect();
                check_eq!(cs, pool[*i].1, "coordinates behind group {} of list {}", k, li);
            }
        }
        let want: Vec<u8> = l.iter().map(|x| x.0).collect();
        let what = format!("group list {}", li);
        let v = reader.read_var_vec(dup(&handles[li]));
        iterates(|| v.iter(), |x| x.relev_score, &want, how, &what)?;
        let again = || reader.read_var_vec(dup(&handles[li])).into_iter();
        iterates(again, |x| x.relev_score, &want, how + 3, &what)?;
    }
    Ok(())
}
fn group_lists_tiny(s: &mut Src, c: &mut Ctx) -> R {
    group_lists(s, c, Scale::Tiny)
}
fn group_lists_small(s: &mut Src, c: &mut Ctx) -> R {
    group_lists(s, c, Scale::Small)
}
fn group_lists_medium(s: &mut Src, c: &mut Ctx) -> R {
    group_lists(s, c, Scale::Medium)
}
fn group_lists_huge(s: &mut Src, c: &mut Ctx) -> R {
    group_lists(s, c, Scale::Huge)
}
fn group_lists_extreme(s: &mut Src, c: &mut Ctx) -> R {
    group_lists(s, c, Scale::Extreme)
}

/// All 256 relevance/score bytes, with the pointer at each of the encoded lengths.
fn group_bytes(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.us(256 * 5);
    let (rs, width) = ((k / 5) as u8, k % 5);
    let target = [0usize, 1 << 7, 1 << 14, 1 << 16, 1 << 21][width];
    c.input("relevance/score byte, pointer at", &(rs, target));
    c.nontrivial = true;
    let mut w = W::new();
    let at0 = w.write_uniform_vec(&[]);
    w.pad_to(target, 0);
    let ids = w.write_fixed_vec(&[1u32]);
    let at = w.write_uniform_vec(&[Coord { coord: 77, ids }]);
    let enc = [
        RelevScore { relev_score: rs, coords: at },
        RelevScore { relev_score: !rs, coords: at0 },
        RelevScore { relev_score: rs, coords: at },
    ];
    let h = w.write_var_vec(&enc);
    let data = w.finish();
    let got: Vec<(u8, Vec<u32>)> = read_var_vec_raw(&data, h)
        .into_iter()
        .take(5)
        .map(|g| {
            let v = read_uniform_vec_raw(&data, g.coords);
            (g.relev_score, v.into_iter().take(3).map(|c| c.coord).collect())
        })
        .collect();
    check_eq!(got, vec![(rs, vec![77]), (!rs, vec![]), (rs, vec![77])], "groups");
    Ok(())
}

/// One group whose coordinates lie just before or after a point where its pointer needs another
/// byte, at every position of lists of one to four groups.
fn group_far_position(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.us(5 * 12 * 10);
    let bounds = [1usize << 7, 1 << 14, 1 << 16, 1 << 21, 1 << 24];
    group_far(c, bounds[k / 120], (k / 10) % 12, k % 10)
}
fn group_very_far_position(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.us(12);
    group_far(c, 1 << 28, k, (k * 7) % 10)
}
fn group_far(c: &mut Ctx, bound: usize, delta: usize, pair: usize) -> R {
    // (length, position) pairs: 1 + 2 + 3 + 4 = 10
    let (mut len, mut pos) = (1, pair);
    while pos >= len {
        pos -= len;
        len += 1;
    }
    let target = bound + delta - 8;
    c.input("length, far position, far distance", &(len, pos, target));
    c.nontrivial_if(len >= 2);
    let mut w = W::new();
    let ids = w.write_fixed_vec(&[1u32]);
    let near = w.write_uniform_vec(&[Coord { coord: 70, ids }, Coord { coord: 69, ids }]);
    w.pad_to(target, 0xff);
    let far = w.write_uniform_vec(&[Coord { coord: 77, ids }]);
    let byte_of = |i: usize| 255 - 37 * i as u8;
    let enc: Vec<RelevScore> = (0..len)
        .map(|i| RelevScore { relev_score: byte_of(i), coords: if i == pos { far } else { near } })
        .collect();
    let h = w.write_var_vec(&enc);
    let at = w.write_var_vec(&enc[pos..]);
    let data = w.finish();
    for (h, first) in [(h, 0), (at, pos)].iter() {
        let v = read_var_vec_raw(&data, dup(h));
        check_eq!(v.len(), len - first, "length");
        let got: Vec<RelevScore> = v.into_iter().take(len + 1).collect();
        check_eq!(got.len(), len - first, "groups iterated");
        for (i, g) in got.iter().enumerate() {
            let i = i + first;
            check_eq!(g.relev_score, byte_of(i), "byte of group {}", i);
            let l: Vec<u32> =
                read_uniform_vec_raw(&data, g.coords).into_iter().take(4).map(|c| c.coord).collect();
            let want = if i == pos { vec![77] } else { vec![70, 69] };
            check_eq!(l, want, "coordinates behind group {}", i);
        }
    }
    Ok(())
}

/// Lists of groups of every length around the powers of two, every kind of iteration.
fn group_list_lengths(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(4 * LENGTHS);
    let (which, place) = (i / 4, i % 4);
    let n = length_around(which);
    let odd = odd_position(place, n);
    c.input("length, position of the far element", &(n, odd));
    c.nontrivial_if(true);
    let mut w = W::new();
    let ids = w.write_fixed_vec(&[5u32]);
    let near = w.write_uniform_vec(&[Coord { coord: 31, ids }, Coord { coord: 30, ids }]);
    w.pad_to([60, 300, 66_000, 17_000_000][(which + place) % 4], 0x80);
    let far = w.write_uniform_vec(&[Coord { coord: 77, ids }]);
    let byte_of = |k: usize| (k as u32).wrapping_mul(0x9e37_79b1).rotate_left(8) as u8;
    let enc: Vec<RelevScore> = (0..n)
        .map(|k| RelevScore { relev_score: byte_of(k), coords: if k == odd { far } else { near } })
        .collect();
    let h = w.write_var_vec(&enc);
    let after = w.write_var_vec(&enc[..1]);
    let data = w.finish();
    label_size(c, data.len());
    let reader = Reader::new(data.as_slice());
    let v = if place % 2 == 0 { reader.read_var_vec(h) } else { read_var_vec_raw(&data, h) };
    check_eq!(v.len(), n, "length");
    let looped: Vec<RelevScore> = match place {
        0 | 1 => v.iter().take(n + 2).collect(),
        _ => v.into_iter().take(n + 2).collect(),
    };
    check_eq!(looped.len(), n, "groups iterated");
    for (k, g) in looped.iter().enumerate() {
        check!(g.relev_score == byte_of(k), "byte of group {}: {}", k, g.relev_score);
        let coords: Vec<u32> =
            reader.read_uniform_vec(g.coords).into_iter().take(4).map(|x| x.coord).collect();
        let want: &[u32] = if k == odd { &[77] } else { &[31, 30] };
        check!(coords == want, "coordinates behind group {}: {:?}", k, coords);
    }
    let last: Vec<u8> =
        read_var_vec_raw(&data, after).iter().take(3).map(|x| x.relev_score).collect();
    check_eq!(last, vec![byte_of(0)], "the list after it");
    Ok(())
}

// ---------------------------------------------------------------- C05

#[derive(Debug, Clone)]
enum Scalar {
    Num(u32),
    Group(u8, usize),
    Coord(u32, usize, usize), // coordinate, target, width over the minimum
    Record(usize),
}

/// The size that writing a group by itself reports, if it does.
trait Told {
    fn told(self) -> Option<usize>;
}
impl Told for usize {
    fn told(self) -> Option<usize> {
        Some(self)
    }
}
impl Told for () {
    fn told(self) -> Option<usize> {
        None
    }
}

fn scalars(s: &mut Src, c: &mut Ctx, scale: Scale) -> R {
    let ntargets = s.ri(1, 4);
    let pads: Vec<PadPlan> = (0..ntargets).map(|_| pad_plan(s, scale)).collect();
    let items: Vec<(PadPlan, Scalar)> = s.list(1, 24, 6, |s, _| {
        let p = pad_plan(s, Scale::Tiny);
        let k = match s.us(4) {
            0 => Scalar::Num(s.num(1 << 32) as u32),
            1 => Scalar::Group(s.num(256) as u8, s.us(ntargets)),
            2 => Scalar::Coord(s.num(1 << 32) as u32, s.us(ntargets), s.us(4)),
            _ => Scalar::Record(s.us(ntargets)),
        };
        (p, k)
    });
    let root = s.us(ntargets);
    c.input("targets", &pads);
    c.input("scalars", &items);
    c.input("root", &root);

    // each target holds an id list, a coordinate list and a group list saying which target it is
    let mut w = W::new();
    let mut targets = Vec::new();
    for (i, p) in pads.iter().enumerate() {
        pad(&mut w, p);
        let ids = w.write_fixed_vec(&[i as u32, 500 + i as u32]);
        let coords = w.write_uniform_vec(&[Coord { coord: 1000 + i as u32, ids }]);
        let rs = w.write_var_vec(&[RelevScore { relev_score: 100 + i as u8, coords }]);
        targets.push((ids, coords, rs));
    }
    enum Handle {
        Num(FixedScalarOffset<u32>),
        Group(VarScalarOffset<RelevScore>),
        Coord(UniformScalarOffset<Coord>, usize),
        Record(FixedScalarOffset<PhraseRecord>),
    }
    let mut handles = Vec::new();
    for (p, it) in &items {
        pad(&mut w, p);
        handles.push(match it {
            Scalar::Num(n) => Handle::Num(w.write_number(*n)),
            Scalar::Group(rs, t) => Handle::Group(
                w.write_group(RelevScore { relev_score: *rs, coords: targets[*t].1 }),
            ),
            Scalar::Coord(x, t, extra) => {
                let v = Coord { coord: *x, ids: targets[*t].0 };
                // what one more of them takes in a list
                let least = bytes(|m| {
                    m.write_uniform_vec(&[dup(&v), dup(&v)]);
                }) - bytes(|m| {
                    m.write_uniform_vec(&[dup(&v)]);
                });
                check!(least <= 8, "a coordinate needs {} bytes", least);
                let size = (least + extra).min(8);
                Handle::Coord(w.write_coord(v, size), size)
            }
            Scalar::Record(t) => Handle::Record(w.write_record(PhraseRecord { relev_scores: dup(&targets[*t].2) })),
        });
    }
    w.write_record(PhraseRecord { relev_scores: dup(&targets[root].2) });
    let data = w.finish();
    label_size(c, data.len());
    c.nontrivial_if(items.len() >= 2);
    let own = owner(s, data);
    let raw = own.as_ref();
    let reader = Reader::new(&own);

    let group_of = |at: UniformVecOffset<Coord>| -> Vec<u32> {
        read_uniform_vec_raw(raw, at).into_iter().take(3).map(|c| c.coord).collect()
    };
    let record_of = |r: PhraseRecord| -> Vec<u8> {
        read_var_vec_raw(raw, r.relev_scores).into_iter().take(3).map(|g| g.relev_score).collect()
    };
    for (k, ((_, it), h)) in items.iter().zip(&handles).enumerate() {
        match (it, h) {
            (Scalar::Num(n), Handle::Num(h)) => {
                check_eq!(reader.read_fixed_scalar(*h), *n, "number {}", k)
            }
            (Scalar::Group(rs, t), Handle::Group(h)) => {
                let (g, size) = reader.read_var_scalar(dup(h));
                check_eq!(g.relev_score, *rs, "relevance/score of scalar {}", k);
                check_eq!(group_of(g.coords), vec![1000 + *t as u32], "coordinates of scalar {}", k);
                // the size read is the size written
                let mut buf = vec![0xAAu8; 3];
                let told = g.write_to(&mut buf).told();
                check_eq!(told.unwrap_or(buf.len() - 3), buf.len() - 3, "size reported when writing scalar {}", k);
                let took = bytes(|m| {
                    m.write_var_scalar(g);
                });
                check_eq!(size, took, "size reported when reading scalar {}", k);
            }
            (Scalar::Coord(x, t, _), Handle::Coord(h, size)) => {
                let g = reader.read_uniform_scalar(*size, *h);
                check_eq!(g.coord, *x, "coordinate of scalar {}", k);
                let l: Vec<u32> = read_fixed_vec_raw(raw, g.ids).into_iter().take(4).collect();
                check_eq!(l, vec![*t as u32, 500 + *t as u32], "ids of scalar {}", k);
                let took = bytes(|m| {
                    m.write_uniform_scalar_with_size(g, *size);
                });
                check_eq!(took, *size, "bytes written for coordinate scalar {}", k);
            }
            (Scalar::Record(t), Handle::Record(h)) => {
                let r = reader.read_fixed_scalar(dup(h));
                check_eq!(record_of(r), vec![100 + *t as u8], "record of scalar {}", k)
            }
            _ => unreachable!(),
        }
    }
    let r: PhraseRecord = reader.read_root();
    check_eq!(record_of(r), vec![100 + root as u8], "root record");
    let r = read_phrase_record_from(&reader);
    check_eq!(record_of(r), vec![100 + root as u8], "record found in the buffer");
    // a plain number can be the root as well
    let mut data2 = raw.get(..raw.len().min(64)).unwrap_or(&[]).to_vec();
    data2.extend_from_slice(&{
        let mut w = W::new();
        w.write_number(0xfeed_0001u32);
        w.finish()
    });
    let n: u32 = Reader::new(data2).read_root();
    check_eq!(n, 0xfeed_0001u32, "root number");
    Ok(())
}
fn scalars_tiny(s: &mut Src, c: &mut Ctx) -> R {
    scalars(s, c, Scale::Tiny)
}
fn scalars_small(s: &mut Src, c: &mut Ctx) -> R {
    scalars(s, c, Scale::Small)
}
fn scalars_medium(s: &mut Src, c: &mut Ctx) -> R {
    scalars(s, c, Scale::Medium)
}
fn scalars_huge(s: &mut Src, c: &mut Ctx) -> R {
    scalars(s, c, Scale::Huge)
}
fn scalars_extreme(s: &mut Src, c: &mut Ctx) -> R {
    scalars(s, c, Scale::Extreme)
}

// ---------------------------------------------------------------- long histories

enum Item {
    Ids(Vec<u32>, FixedVecOffset<u32>),
    Coords(Vec<(u32, usize)>, UniformVecOffset<Coord>),
    Groups(Vec<(u8, usize)>, VarVecOffset<RelevScore>),
    Num(u32, FixedScalarOffset<u32>),
    Coord(u32, usize, usize, UniformScalarOffset<Coord>),
    Group(u8, usize, VarScalarOffset<RelevScore>),
    Record(usize, FixedScalarOffset<PhraseRecord>),
}

/// Hundreds to tens of thousands of writes of every kind to one buffer, each list pointing to some of
/// the earlier ones; then everything is read through its handle, in another order, and the pointers
/// are followed by one step. `focus` is the kind written most.
fn many(s: &mut Src, c: &mut Ctx, focus: usize) -> R {
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.ri(2, 400),
        1 => s.ri(400, 6_000),
        _ => 65_536 - 200 + s.us(600),
    };
    let maxlen = [3, 8, 1, 40][s.weighted(&[4, 3, 1, 1])].min(400_000 / n);
    let seed = s.any();
    // values, and pointers to recent things or to anything before
    let (small, near) = (s.bool(), s.bool());
    c.input("writes, longest list, seed", &(n, maxlen, seed));
    c.input("small values, near pointers, mostly", &(small, near, focus));
    c.label(match n {
        0..=399 => "under 400 writes",
        400..=65_000 => "400-6,000 writes",
        _ => "over 65,000 writes",
    });
    c.nontrivial_if(n >= 20);
    let mut r = pbt::src::Rng::new(seed);
    let val = |r: &mut pbt::src::Rng| {
        let x = r.next() as u32;
        if small {
            x % 7
        } else {
            x >> (r.below(4) * 8)
        }
    };
    let mut w = Writer::new();
    let mut items: Vec<Item> = Vec::new();
    let (mut id_lists, mut coord_lists, mut group_lists) = (Vec::new(), Vec::new(), Vec::new());
    let choose = |r: &mut pbt::src::Rng, of: &Vec<usize>| -> usize {
        let lo = if near { of.len().saturating_sub(3) } else { 0 };
        of[lo + r.below((of.len() - lo) as u64) as usize]
    };
    for i in 0..n + 3 {
        // the first three give the others something to point to
        let kind = match i {
            0..=2 => i,
            _ if r.below(2) == 0 => focus,
            _ => r.below(7) as usize,
        };
        let len = r.below(maxlen as u64 + 1) as usize;
        let ids_of = |items: &Vec<Item>, k: usize| match &items[k] {
            Item::Ids(_, h) => *h,
            _ => unreachable!(),
        };
        let coords_of = |items: &Vec<Item>, k: usize| match &items[k] {
            Item::Coords(_, h) => dup(h),
            _ => unreachable!(),
        };
        let item = match kind {
            0 => {
                let v: Vec<u32> = (0..len).map(|_| val(&mut r)).collect();
                let h = w.write_fixed_vec(&v);
                id_lists.push(i);
                Item::Ids(v, h)
            }
            1 => {
                let v: Vec<_> = (0..len).map(|_| (val(&mut r), choose(&mut r, &id_lists))).collect();
                let enc: Vec<Coord> =
                    v.iter().map(|x| Coord { coord: x.0, ids: ids_of(&items, x.1) }).collect();
                let h = w.write_uniform_vec(&enc);
                coord_lists.push(i);
                Item::Coords(v, h)
            }
            2 => {
                let v: Vec<_> =
                    (0..len).map(|_| (val(&mut r) as u8, choose(&mut r, &coord_lists))).collect();
                let enc: Vec<RelevScore> = v
                    .iter()
                    .map(|x| RelevScore { relev_score: x.0, coords: coords_of(&items, x.1) })
                    .collect();
                let h = w.write_var_vec(&enc);
                group_lists.push(i);
                Item::Groups(v, h)
            }
            3 => {
                let x = val(&mut r);
                Item::Num(x, w.write_fixed_scalar(x))
            }
            4 => {
                let (x, k) = (val(&mut r), choose(&mut r, &id_lists));
                Item::Coord(x, k, 8, w.write_uniform_scalar_with_size(Coord { coord: x, ids: ids_of(&items, k) }, 8))
            }
            5 => {
                let (x, k) = (val(&mut r) as u8, choose(&mut r, &coord_lists));
                let g = RelevScore { relev_score: x, coords: coords_of(&items, k) };
                Item::Group(x, k, w.write_var_scalar(g))
            }
            _ => {
                let k = choose(&mut r, &group_lists);
                let at = match &items[k] {
                    Item::Groups(_, h) => dup(h),
                    _ => unreachable!(),
                };
                Item::Record(k, w.write_fixed_scalar(PhraseRecord { relev_scores: at }))
            }
        };
        items.push(item);
    }
    let data = w.finish();
    label_size(c, data.len());
    let reader = Reader::new(data.as_slice());
    let ids_are = |k: usize, at: FixedVecOffset<u32>| -> R {
        if let Item::Ids(v, _) = &items[k] {
            let got: Vec<u32> = read_fixed_vec_raw(&data, at).into_iter().take(v.len() + 2).collect();
            check!(got == *v, "id list {}: {:?} instead of {:?}", k, got, v);
        }
        Ok(())
    };
    let coords_are = |k: usize, at: UniformVecOffset<Coord>| -> R {
        if let Item::Coords(v, _) = &items[k] {
            let all = read_uniform_vec_raw(&data, at);
            check_eq!(all.len(), v.len(), "length of coordinate list {}", k);
            let got: Vec<u32> = all.into_iter().take(v.len() + 2).map(|x| x.coord).collect();
            let want: Vec<u32> = v.iter().map(|x| x.0).collect();
            check!(got == want, "coordinate list {}: {:?} instead of {:?}", k, got, want);
        }
        Ok(())
    };
    let groups_are = |k: usize, at: VarVecOffset<RelevScore>| -> R {
        if let Item::Groups(v, _) = &items[k] {
            let all = read_var_vec_raw(&data, at);
            check_eq!(all.len(), v.len(), "length of group list {}", k);
            let got: Vec<u8> = all.iter().take(v.len() + 2).map(|x| x.relev_score).collect();
            let want: Vec<u8> = v.iter().map(|x| x.0).collect();
            check!(got == want, "group list {}: {:?} instead of {:?}", k, got, want);
        }
        Ok(())
    };
    let total = items.len();
    for j in 0..total {
        // backwards, or by steps of 7
        let k = if seed % 2 == 0 || total % 7 == 0 { total - 1 - j } else { (j * 7) % total };
        match &items[k] {
            Item::Ids(v, h) => {
                check_eq!(reader.read_fixed_vec(*h).len(), v.len(), "length of id list {}", k);
                ids_are(k, *h)?;
            }
            Item::Coords(v, h) => {
                coords_are(k, *h)?;
                let all = reader.read_uniform_vec(*h);
                for (i, (x, to)) in v.iter().enumerate() {
                    let g = all.get(i);
                    check!(g.coord == *x, "coordinate {} of list {}: {}", i, k, g.coord);
                    ids_are(*to, g.ids)?;
                }
            }
            Item::Groups(v, h) => {
                groups_are(k, dup(h))?;
                let all = reader.read_var_vec(dup(h));
                for (g, (_, to)) in all.into_iter().take(v.len()).zip(v) {
                    coords_are(*to, g.coords)?;
                }
            }
            Item::Num(x, h) => check_eq!(reader.read_fixed_scalar(*h), *x, "number {}", k),
            Item::Coord(x, to, size, h) => {
                let g = reader.read_uniform_scalar(*size, *h);
                check_eq!(g.coord, *x, "single coordinate {}", k);
                ids_are(*to, g.ids)?;
            }
            Item::Group(x, to, h) => {
                let (g, _) = reader.read_var_scalar(dup(h));
                check_eq!(g.relev_score, *x, "single group {}", k);
                coords_are(*to, g.coords)?;
            }
            Item::Record(to, h) => groups_are(*to, reader.read_fixed_scalar(dup(h)).relev_scores)?,
        }
    }
    if let Some(Item::Record(to, _)) = items.last() {
        groups_are(*to, read_phrase_record_from(&reader).relev_scores)?;
    }
    Ok(())
}
fn many_ids(s: &mut Src, c: &mut Ctx) -> R {
    many(s, c, 0)
}
fn many_coord_lists(s: &mut Src, c: &mut Ctx) -> R {
    many(s, c, 1)
}
fn many_group_lists(s: &mut Src, c: &mut Ctx) -> R {
    many(s, c, 2)
}
fn many_scalars(s: &mut Src, c: &mut Ctx) -> R {
    let kind = s.ri(3, 6);
    many(s, c, kind)
}

// ---------------------------------------------------------------- lists of 2^24 and 2^28 elements

/// Lists so long that their length needs another byte, or that a position times the size of an element
/// passes 2^24, 2^28 or 2^31.
fn enormous_number(s: &mut Src, c: &mut Ctx) -> usize {
    let n = [1 << 28, (1 << 24) + 1, (1 << 23) + 5][s.us(3)];
    c.input("length", &n);
    c.nontrivial_if(true);
    n
}
/// Positions worth reading in a list of n.
fn positions(n: usize) -> impl Iterator<Item = usize> {
    let near = (0..29).flat_map(move |b| (0..5).map(move |d| ((1usize << b) + d).saturating_sub(2)));
    let spread = (0..1000).map(move |i| n / 1000 * i + i % 7);
    near.chain(spread).chain(n - 5..n).filter(move |i| *i < n)
}

fn enormous_ids(s: &mut Src, c: &mut Ctx) -> R {
    let n = enormous_number(s, c);
    let of = |i: usize| (i as u32).wrapping_mul(0x9e37_79b1);
    let mut w = Writer::new();
    let before = w.write_fixed_vec(&[1u32, 2]);
    let list: Vec<u32> = (0..n).map(of).collect();
    let at = w.write_fixed_vec(&list);
    drop(list);
    let after = w.write_fixed_vec(&[3u32]);
    let data = w.finish();
    let v = read_fixed_vec_raw(&data, at);
    check_eq!(v.len(), n, "length");
    for i in positions(n) {
        check!(v.get(i) == of(i), "position {}: {} instead of {}", i, v.get(i), of(i));
    }
    let (mut k, mut wrong) = (0, None);
    for x in v.iter().take(n + 1) {
        if x != of(k) && wrong.is_none() {
            wrong = Some((k, x));
        }
        k += 1;
    }
    check_eq!(wrong, None, "first wrong number of the iteration");
    check_eq!(k, n, "numbers iterated");
    for (h, want) in [(before, vec![1, 2]), (after, vec![3])].iter() {
        let got: Vec<u32> = read_fixed_vec_raw(&data, *h).into_iter().take(4).collect();
        check_eq!(got, *want, "its neighbour");
    }
    Ok(())
}

fn enormous_coords(s: &mut Src, c: &mut Ctx) -> R {
    let n = enormous_number(s, c);
    let of = |i: usize| (i as u32).wrapping_mul(0x9e37_79b1);
    let mut w = Writer::new();
    let ids = [w.write_fixed_vec(&[1u32, 2]), w.write_fixed_vec(&[3u32])];
    let lists = [vec![1, 2], vec![3]];
    let list: Vec<Coord> = (0..n).map(|i| Coord { coord: of(i), ids: ids[i % 2] }).collect();
    let at = w.write_uniform_vec(&list);
    drop(list);
    let after = w.write_uniform_vec(&[Coord { coord: 6, ids: ids[0] }]);
    let data = w.finish();
    let v = read_uniform_vec_raw(&data, at);
    check_eq!(v.len(), n, "length");
    for i in positions(n) {
        let g = v.get(i);
        check!(g.coord == of(i), "position {}: {} instead of {}", i, g.coord, of(i));
        let l: Vec<u32> = read_fixed_vec_raw(&data, g.ids).into_iter().take(4).collect();
        check!(l == lists[i % 2], "ids behind position {}: {:?}", i, l);
    }
    let (mut k, mut wrong) = (0, None);
    for x in v.into_iter().take(n + 1) {
        if x.coord != of(k) && wrong.is_none() {
            wrong = Some((k, x.coord));
        }
        k += 1;
    }
    check_eq!(wrong, None, "first wrong coordinate of the iteration");
    check_eq!(k, n, "coordinates iterated");
    let got: Vec<u32> = read_uniform_vec_raw(&data, after).into_iter().take(4).map(|x| x.coord).collect();
    check_eq!(got, vec![6], "its neighbour");
    Ok(())
}

fn enormous_groups(s: &mut Src, c: &mut Ctx) -> R {
    let n = enormous_number(s, c);
    let of = |i: usize| (i as u32).wrapping_mul(0x9e37_79b1).rotate_left(8) as u8;
    let mut w = Writer::new();
    let ids = w.write_fixed_vec(&[1u32, 2]);
    let near = w.write_uniform_vec(&[Coord { coord: 6, ids }]);
    let list: Vec<RelevScore> = (0..n).map(|i| RelevScore { relev_score: of(i), coords: near }).collect();
    let at = w.write_var_vec(&list);
    drop(list);
    let after = w.write_var_vec(&[RelevScore { relev_score: 9, coords: near }]);
    let data = w.finish();
    let v = read_var_vec_raw(&data, at);
    check_eq!(v.len(), n, "length");
    let (mut k, mut wrong) = (0, None);
    for x in v.into_iter().take(n + 1) {
        if x.relev_score != of(k) && wrong.is_none() {
            wrong = Some((k, x.relev_score));
        }
        if k % (1 << 18) == 0 {
            let l: Vec<u32> = read_uniform_vec_raw(&data, x.coords).into_iter().take(4).map(|x| x.coord).collect();
            check!(l == [6], "coordinates behind group {}: {:?}", k, l);
        }
        k += 1;
    }
    check_eq!(wrong, None, "first wrong byte of the iteration");
    check_eq!(k, n, "groups iterated");
    let got: Vec<u8> = read_var_vec_raw(&data, after).into_iter().take(4).map(|x| x.relev_score).collect();
    check_eq!(got, vec![9], "its neighbour");
    Ok(())
}

// ----------------------------------------------------------------

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![
        Prop {
            id: "C01",
            rule: "random records (id-list pool, groups, coordinates, sharing, layout with padding \
                   placed around the powers of two where pointers grow), written and decoded; \
                   non-trivial: at least two groups, two coordinates and a non-empty id list \
                   (dense family: more than 255 bytes; lengths family: all; histories: \
                   long runs of group lists in one buffer, two or more of them; beside, in C02-C05 \
                   as well: two to four records of two or more coordinates, alike or not, written \
                   in turns, read in turns and one after another from the same place)",
            assumptions: ASSUME,
            families: vec![
                Family::all("lengths", 2 * LENGTHS as u64, record_lengths),
                f("tiny", 30_000, 2_000_000, record_tiny),
                f("small", 20_000, 1_000_000, record_small),
                f("dense", 400, 20_000, record_dense),
                f("histories", 400, 40_000, many_group_lists),
                f("beside", 60_000, 2_000_000, beside),
                f("medium", 160, 6_000, record_medium),
                f("huge", 12, 200, record_huge).threads(3),
                f("extreme", 3, 40, record_extreme).threads(2),
            ],
        },
        Prop {
            id: "C02",
            rule: "random lists of 32-bit numbers at random positions of one buffer, each read in \
                   six ways and through the standard iterator methods, plus every list length around the \
                   growth points of the length prefix, histories of up to 66,000 writes in which \
                   lists resemble earlier ones, and lists of up to 2^28 numbers; non-trivial: at least two lists, one of them of two or more numbers",
            assumptions: ASSUME,
            families: vec![
                Family::all("lengths", 300 + 4 * 41, id_list_lengths),
                f("tiny", 30_000, 2_000_000, id_lists_tiny),
                f("small", 6_000, 300_000, id_lists_small),
                f("medium", 120, 4_000, id_lists_medium),
                f("huge", 8, 150, id_lists_huge).threads(3),
                f("histories", 400, 40_000, many_ids),
                f("beside", 60_000, 2_000_000, beside),
                Family::all("enormous", 3, enormous_ids).threads(2),
            ],
        },
        Prop {
            id: "C03",
            rule: "random coordinate lists with pointers to id lists at random distances, read by \
                   position and by iteration and followed, plus one far pointer at every position \
                   of every list length up to 12 around every pointer width, lists of every length \
                   within two of 2^7, 2^8, 2^14, 2^15, 2^16 and 2^21, histories of up to 66,000 \
                   writes and lists of up to 2^28 coordinates; non-trivial: a list of two or more coordinates",
            assumptions: ASSUME,
            families: vec![
                Family::all("far element", 78 * 4 * 5, coord_far_position),
                Family::all("lengths", 4 * LENGTHS as u64, coord_list_lengths),
                f("tiny", 30_000, 2_000_000, coord_lists_tiny),
                f("small", 20_000, 1_000_000, coord_lists_small),
                f("medium", 160, 6_000, coord_lists_medium),
                f("huge", 12, 200, coord_lists_huge).threads(3),
                f("extreme", 3, 40, coord_lists_extreme).threads(2),
                f("histories", 400, 40_000, many_coord_lists),
                f("beside", 60_000, 2_000_000, beside),
                Family::all("enormous", 3, enormous_coords).threads(1),
            ],
        },
        Prop {
            id: "C04",
            rule: "random lists of groups with pointers to coordinate lists at random distances, \
                   iterated in four ways and followed, plus all 256 relevance/score bytes at five \
                   pointer lengths, one far pointer at every position of every list length up to \
                   four around every pointer length, lists of every length within two of 2^7, 2^8, \
                   2^14, 2^15, 2^16 and 2^21, histories of up to 66,000 writes and lists of up to \
                   2^28 groups; non-trivial: a list of two or more groups",
            assumptions: ASSUME,
            families: vec![
                Family::all("bytes", 256 * 5, group_bytes),
                Family::all("far element", 5 * 12 * 10, group_far_position),
                Family::all("very far element", 12, group_very_far_position).threads(3),
                Family::all("lengths", 4 * LENGTHS as u64, group_list_lengths),
                f("tiny", 30_000, 2_000_000, group_lists_tiny),
                f("small", 20_000, 1_000_000, group_lists_small),
                f("medium", 160, 6_000, group_lists_medium),
                f("huge", 12, 200, group_lists_huge).threads(3),
                f("extreme", 3, 40, group_lists_extreme).threads(2),
                f("histories", 400, 40_000, many_group_lists),
                f("beside", 60_000, 2_000_000, beside),
                Family::all("enormous", 3, enormous_groups).threads(1),
            ],
        },
        Prop {
            id: "C05",
            rule: "random sequences of numbers, groups, coordinates (at every width) and record \
                   headers at random positions, read through their handles, followed, measured, \
                   and the last header opened without one, in histories of up to 66,000 writes; non-trivial: at least two scalars",
            assumptions: ASSUME,
            families: vec![
                f("tiny", 30_000, 2_000_000, scalars_tiny),
                f("small", 20_000, 1_000_000, scalars_small),
                f("medium", 160, 6_000, scalars_medium),
                f("huge", 12, 200, scalars_huge).threads(3),
                f("extreme", 3, 40, scalars_extreme).threads(2),
                f("histories", 400, 40_000, many_scalars),
                f("beside", 60_000, 2_000_000, beside),
            ],
        },
    ]
}
