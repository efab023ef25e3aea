//! C16 and C17: match options.

use crate::stacks::*;
use crate::store_props::ASSUME;
use crate::world::*;
use carmen_core::gridstore::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};

fn point(s: &mut Src, max: u16) -> [u16; 2] {
    [tile(s, max), tile(s, max)]
}

fn opts(s: &mut Src, zoom: u16, always: bool) -> MatchOpts {
    let max = max_tile(zoom);
    let proximity = if always || s.chance(3, 4) { Some(point(s, max)) } else { None };
    let near = proximity.map(|p| (p[0], p[1]));
    let bbox = if always || s.chance(3, 4) { Some(any_box(s, max, near)) } else { None };
    MatchOpts { bbox, proximity, zoom }
}

fn same(got: &MatchOpts, want: &MatchOpts, what: &str) -> R {
    check!(
        got.zoom == want.zoom && got.proximity == want.proximity && got.bbox == want.bbox,
        "{}: got {:?} expected {:?}",
        what,
        got,
        want
    );
    Ok(())
}

fn c16_one(s: &mut Src, from: u16, to: u16, o: &MatchOpts) -> R {
    let got = o.adjust_to_zoom(to);
    same(&got, &at_zoom(o, to), &format!("{:?} at zoom {}", o, to))?;
    if from == to {
        same(&got, o, "the same zoom")?;
    }
    if to < from {
        // a tile of the box has its ancestor in the new box
        if let (Some(b), Some(n)) = (o.bbox, got.bbox) {
            for _ in 0..4 {
                let x = b[0] + s.u(b[2] as u64 - b[0] as u64 + 1) as u16;
                let y = b[1] + s.u(b[3] as u64 - b[1] as u64 + 1) as u16;
                let (ax, ay) = ancestor((x, y), from, to);
                check!(in_box(&n, ax, ay), "tile {},{} of {:?} falls out of {:?} at zoom {}", x, y, o, n, to);
            }
        }
    } else {
        // there and back
        same(&got.adjust_to_zoom(from), o, &format!("zoom {} and back", to))?;
        // in two steps: the box is the same
        if to > from {
            let mid = from + s.us((to - from) as usize + 1) as u16;
            check_eq!(o.adjust_to_zoom(mid).adjust_to_zoom(to).bbox, got.bbox, "{:?} to zoom {} by way of {}", o, to, mid);
        }
    }
    Ok(())
}

fn c16_pairs(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(17 * 17);
    let (from, to) = ((i % 17) as u16, (i / 17) as u16);
    c.input("from, to", &(from, to));
    c.nontrivial = from != to;
    c.label(if from < to { "in" } else if from > to { "out" } else { "same" });
    let max = max_tile(from);
    for p in [[0, 0], [max, max], [0, max], [max / 2, max / 2]] {
        for b in [[0, 0, max, max], [0, 0, 0, 0], [max, max, max, max], [max / 2, 0, max, max / 2]] {
            c16_one(s, from, to, &MatchOpts { zoom: from, bbox: Some(b), proximity: Some(p) })?;
        }
    }
    for _ in 0..40 {
        let o = opts(s, from, true);
        c16_one(s, from, to, &o)?;
    }
    Ok(())
}

fn c16_random(s: &mut Src, c: &mut Ctx) -> R {
    let (from, to) = (s.r16(0, 16), s.r16(0, 16));
    let o = opts(s, from, false);
    c.input("options", &o);
    c.input("zoom", &to);
    c.nontrivial_if(from != to && o.bbox.is_some() && o.proximity.is_some());
    c16_one(s, from, to, &o)
}

// ---------------------------------------------------------------- C17

/// The part of a box within the tile range.
fn clip(b: [u16; 4], max: u16) -> Option<[u16; 4]> {
    let r = [b[0], b[1], b[2].min(max), b[3].min(max)];
    if r[0] <= r[2] && r[1] <= r[3] {
        Some(r)
    } else {
        None
    }
}

fn c17_one(o: &MatchOpts) -> R {
    let got = o.with_nearby_only();
    check!(
        got.zoom == o.zoom && got.proximity == o.proximity,
        "other parts of {:?} changed: {:?}",
        o,
        got
    );
    match nearby_box(o) {
        None => check_eq!(got.bbox, o.bbox, "without a point, {:?}", o),
        Some(want) => {
            let b = match got.bbox {
                None => return Err(format!("no box: {:?} became {:?}", o, got)),
                Some(b) => b,
            };
            check_eq!(clip(b, max_tile(o.zoom)), want, "nearby box of {:?}", o);
        }
    }
    Ok(())
}

fn c17_corners(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(17 * 9);
    let zoom = (i % 17) as u16;
    let (cx, cy) = (i / 17 % 3, i / 17 / 3);
    let max = max_tile(zoom);
    c.input("zoom, corner", &(zoom, cx, cy));
    c.nontrivial = true;
    let n = nearby_tiles(zoom).min(max as u32) as u16;
    let ladder = |side: usize| -> Vec<u16> {
        let d = [0, 1, n.saturating_sub(1), n, n.saturating_add(1)];
        let mut v: Vec<u16> = d
            .iter()
            .map(|d| match side {
                0 => (*d).min(max),
                1 => max - (*d).min(max),
                _ => (max / 2).saturating_add(*d).min(max),
            })
            .collect();
        v.dedup();
        v
    };
    for x in ladder(cx) {
        for y in ladder(cy) {
            c17_one(&MatchOpts { zoom, bbox: None, proximity: Some([x, y]) })?;
            for _ in 0..4 {
                let b = any_box(s, max, Some((x, y)));
                c17_one(&MatchOpts { zoom, bbox: Some(b), proximity: Some([x, y]) })?;
            }
        }
    }
    Ok(())
}

fn c17_query(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = s.r16(0, 16);
    let max = max_tile(zoom);
    let o = opts(s, zoom, false);
    let n = nearby_tiles(zoom) as i64;
    let centre = o.proximity.unwrap_or([max / 2, max / 2]);
    let list = s.list(1, 40, 12, |s, i| {
        let at = |s: &mut Src, v: u16| {
            let d = if s.bool() { n + s.us(5) as i64 - 2 } else { s.u(2 * n as u64 + 2) as i64 };
            let d = if s.bool() { -d } else { d };
            (v as i64 + d).clamp(0, max as i64) as u16
        };
        let (x, y) = (at(s, centre[0]), at(s, centre[1]));
        GridEntry { relev: 1.0, score: s.us(16) as u8, x, y, id: i as u32, source_phrase_hash: 0 }
    });
    c.input("options", &o);
    c.input("entries", &list);
    c17_one(&o)?;
    let items: Items = vec![(GridKey { phrase_id: 1, lang_set: 1 }, Entries::Listed(list))];
    let m = content(&items);
    let st = open(build(&items, &[])?, zoom, 100.0)?;
    let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
    let want = match nearby_box(&o) {
        None => flat(&expect(&m, &k, &o, 100.0)),
        Some(None) => vec![],
        Some(b) => flat(&expect(&m, &k, &MatchOpts { bbox: b, ..o.clone() }, 100.0)),
    };
    let all = m.values().map(|e| e.len()).sum::<usize>();
    c.label_if(o.proximity.is_some() && matches!(nearby_box(&o), Some(None)), "empty intersection");
    c.nontrivial_if(o.proximity.is_some() && want.len() < all);
    let got = query(&st.gs, &k, &o.with_nearby_only(), usize::MAX, all + 2)?;
    same_hits(&got, &want, "nearby results")
}

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![
        Prop {
            id: "C16",
            rule: "all 289 pairs of zooms from 0 to 16, each with the extreme and 40 random points \
                   and boxes, and single random requests, against ancestor and descendant \
                   arithmetic, round trips and two-step changes; non-trivial: two different zooms \
                   with a point and a box",
            assumptions: ASSUME,
            families: vec![
                Family::all("pairs", 17 * 17, c16_pairs),
                f("random", 4_000_000, 10_000_000, c16_random),
            ],
        },
        Prop {
            id: "C17",
            rule: "all zooms and points around every corner, edge and the middle, with boxes near \
                   and far, and queries over entries placed around the edge of the nearby box; \
                   non-trivial: the restriction leaves out some entry",
            assumptions: ASSUME,
            families: vec![
                Family::all("corners", 17 * 9, c17_corners),
                f("query", 320_000, 2_000_000, c17_query),
            ],
        },
    ]
}
