"""Planted bugs: see mkseed.py."""
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


FMT = "gridstore_format.rs"

seed("coord-pointer-16m", "C03",
     "an id list that starts exactly 16,777,216 bytes into the buffer",
     "the pointer to it is stored in three bytes and reads back as 0",
     [(FMT, "65536..=16777215 => 4 + 3,", "65536..=16777216 => 4 + 3,")],
     r'''
fn main() {
    let mut w = Writer::new();
    // 4 bytes of length and 4 bytes per number: the list after them starts at 2^24
    w.write_fixed_vec(&vec![7u32; (1 << 22) - 1]);
    let ids = w.write_fixed_vec(&[1u32, 2, 3]);
    let coords = w.write_uniform_vec(&[Coord { coord: 9, ids }]);
    let data = w.finish();
    let c = read_uniform_vec_raw(&data, coords).get(0);
    assert_eq!(c.coord, 9);
    assert_eq!(read_fixed_vec_raw(&data, c.ids).into_iter().take(4).collect::<Vec<_>>(), [1, 2, 3]);
}
''', kind="fmt")

seed("coord-size-from-ends", "C03",
     "a coordinate list whose farthest id list belongs to a coordinate in the middle",
     "the size of the elements is chosen from the first and the last of them, so a farther pointer between them is cut off",
     [(FMT, "s.iter().map(|obj| obj.get_min_size()).max()", "s.first().into_iter().chain(s.last()).map(|obj| obj.get_min_size()).max()")],
     r'''
fn main() {
    let mut w = Writer::new();
    let near = w.write_fixed_vec(&[1u32]);
    w.write_fixed_vec(&vec![0u32; 100]);
    let far = w.write_fixed_vec(&[2u32]);
    let coords = w.write_uniform_vec(&[
        Coord { coord: 30, ids: near },
        Coord { coord: 20, ids: far },
        Coord { coord: 10, ids: near },
    ]);
    let data = w.finish();
    let read: Vec<_> = read_uniform_vec_raw(&data, coords)
        .into_iter()
        .map(|c| (c.coord, read_fixed_vec_raw(&data, c.ids).into_iter().take(4).collect::<Vec<_>>()))
        .collect();
    assert_eq!(read, [(30, vec![1]), (20, vec![2]), (10, vec![1])]);
}
''', kind="fmt")

seed("group-step-256m", "C04",
     "a group whose coordinate list lies 256 MiB or more into the buffer, with another group after it",
     "the reader advances too little past a five-byte pointer, so the groups after it are garbage",
     [(FMT, "(RelevScore { relev_score, coords }, 1 + addr_len)", "(RelevScore { relev_score, coords }, 1 + addr_len.min(4))")],
     r'''
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 1 << 26]);
    let ids = w.write_fixed_vec(&[5u32]);
    let a = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let b = w.write_uniform_vec(&[Coord { coord: 2, ids }]);
    let groups = w.write_var_vec(&[RelevScore { relev_score: 60, coords: a }, RelevScore { relev_score: 50, coords: b }]);
    let data = w.finish();
    let read: Vec<_> = read_var_vec_raw(&data, groups).into_iter().map(|g| g.relev_score).collect();
    assert_eq!(read, [60, 50]);
}
''', kind="fmt")

seed("list-length-16-bits", "C02",
     "an id list of more than 65,535 numbers",
     "its length is kept to 16 bits, so it reads back too short",
     [(FMT, """    pub fn write_fixed_vec<T: FixedEncodable>(&mut self, s: &[T]) -> FixedVecOffset<T> {
        let loc = self.data.len();
        let mut len_buf = [0u8; 8];
        let len_len = (s.len() as u32)""", """    pub fn write_fixed_vec<T: FixedEncodable>(&mut self, s: &[T]) -> FixedVecOffset<T> {
        let loc = self.data.len();
        let mut len_buf = [0u8; 8];
        let len_len = (s.len() as u16)""")],
     r'''
fn main() {
    let mut w = Writer::new();
    let list: Vec<u32> = (0..70_000).collect();
    let at = w.write_fixed_vec(&list);
    let data = w.finish();
    assert!(read_fixed_vec_raw(&data, at).into_iter().eq(list));
}
''', kind="fmt")

seed("root-pointer-24-bits", "C05",
     "a record header for a group list that starts beyond 16,777,215 bytes",
     "the top byte of the pointer in the header is dropped",
     [(FMT, "buffer.extend_from_slice(&(self.relev_scores.addr as u32).to_le_bytes());",
       "let addr = (self.relev_scores.addr as u32).to_le_bytes();\n        buffer.extend_from_slice(&[addr[0], addr[1], addr[2], 0]);")],
     r'''
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 1 << 22]);
    let ids = w.write_fixed_vec(&[5u32]);
    let coords = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let relev_scores = w.write_var_vec(&[RelevScore { relev_score: 60, coords }]);
    w.write_fixed_scalar(PhraseRecord { relev_scores });
    let data = w.finish();
    let record = read_phrase_record_from(&Reader::new(&data));
    let read: Vec<_> = read_var_vec_raw(&data, record.relev_scores).into_iter().map(|g| g.relev_score).collect();
    assert_eq!(read, [60]);
}
''', kind="fmt")

# ---- more of the storage format

seed("ids-same-sum", "C02",
     "two id lists written one after the other with the same length, first byte and sum of bytes, in a different order",
     "a list taken for a repetition of the one before it is not written again",
     [(FMT, """pub struct Writer {
    data: Vec<u8>,
}""", """pub struct Writer {
    data: Vec<u8>,
    /// where the last list of fixed-size elements lies, and a checksum of it
    last: Option<(usize, usize, u64)>,
}"""),
      (FMT, "        Writer { data: Vec::new() }", "        Writer { data: Vec::new(), last: None }"),
      (FMT, """        for item in s {
            item.write_fixed_to(&mut self.data);
        }
        FixedVecOffset::new(loc)""", """        for item in s {
            item.write_fixed_to(&mut self.data);
        }
        let size = self.data.len() - loc;
        let sum = self.data[loc..].iter().fold(0u64, |sum, b| sum + *b as u64);
        match self.last {
            // the same list again: share it
            Some((at, n, x)) if n == size && x == sum && at + n == loc => {
                self.data.truncate(loc);
                return FixedVecOffset::new(at);
            }
            _ => self.last = Some((loc, size, sum)),
        }
        FixedVecOffset::new(loc)""")],
     r"""
fn main() {
    let mut w = Writer::new();
    let a = w.write_fixed_vec(&[5u32, 9, 7]);
    let b = w.write_fixed_vec(&[5u32, 7, 9]);
    let data = w.finish();
    let read = |at| read_fixed_vec_raw(&data, at).into_iter().collect::<Vec<u32>>();
    assert_eq!(read(a), [5, 9, 7]);
    assert_eq!(read(b), [5, 7, 9]);
}
""", kind="fmt")

seed("ids-nth", "C02",
     "skipping ahead twice in one iteration over an id list",
     "nth() counts from the start of the list instead of from where the iteration stands",
     [(FMT, """    pub fn into_iter(self) -> impl Iterator<Item = T> + 'a {
        (0..self.len).map(move |idx| self.get(idx))
    }
}

#[derive(Copy, Clone)]
pub struct VarVec""", """    pub fn into_iter(self) -> impl Iterator<Item = T> + 'a
    where
        T: 'a,
    {
        FixedVecIter { vec: self, pos: 0 }
    }
}

/// Iteration that can skip ahead without decoding what is skipped.
struct FixedVecIter<'a, T> {
    vec: FixedVec<'a, T>,
    pos: usize,
}

impl<'a, T: FixedEncodable> Iterator for FixedVecIter<'a, T> {
    type Item = T;

    fn next(&mut self) -> Option<T> {
        if self.pos < self.vec.len {
            let item = self.vec.get(self.pos);
            self.pos += 1;
            Some(item)
        } else {
            None
        }
    }

    fn nth(&mut self, n: usize) -> Option<T> {
        self.pos = n;
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.vec.len - self.pos.min(self.vec.len);
        (left, Some(left))
    }
}

#[derive(Copy, Clone)]
pub struct VarVec""")],
     r"""
fn main() {
    let mut w = Writer::new();
    let at = w.write_fixed_vec(&[1u32, 2, 3, 4, 5, 6, 7]);
    let data = w.finish();
    let every_other: Vec<u32> = read_fixed_vec_raw(&data, at).into_iter().skip(1).step_by(2).take(9).collect();
    assert_eq!(every_other, [2, 4, 6]);
}
""", kind="fmt")

seed("coordinate-position-16-bits", "C03",
     "reading a coordinate by position past 65,535, in a list whose elements take the widest form",
     "the position is cut to 16 bits, for the widest elements only",
     [(FMT, """        let offset = self.start + (pos * self.rec_size);
        T::read_with_size_from""", """        let offset = match self.rec_size {
            // two whole words per element
            8 => self.start + ((pos << 3) & 0x7ffff),
            size => self.start + pos * size,
        };
        T::read_with_size_from""")],
     r"""
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 1 << 22]);
    let ids = w.write_fixed_vec(&[5u32]);
    let coords: Vec<Coord> = (0..70_000).map(|coord| Coord { coord, ids }).collect();
    let at = w.write_uniform_vec(&coords);
    let data = w.finish();
    let v = read_uniform_vec_raw(&data, at);
    assert_eq!(v.get(65_535).coord, 65_535);
    assert_eq!(v.get(65_536).coord, 65_536);
}
""", kind="fmt")

seed("wide-coordinate-filled", "C05",
     "a single coordinate written two or more bytes wider than its pointer needs",
     "the surplus bytes repeat the last byte of the pointer",
     [(FMT, "        buffer.extend_from_slice(&(self.ids.addr as u32).to_le_bytes()[..(size - 4)]);",
       """        let least = self.get_min_size();
        let addr = (self.ids.addr as u32).to_le_bytes();
        buffer.extend_from_slice(&addr[..(size.min(least + 1) - 4)]);
        // whatever is wider than that is filled up
        let fill = *buffer.last().unwrap() | addr[least - 5];
        buffer.extend(std::iter::repeat(fill).take(size.saturating_sub(least + 1)));""")],
     r"""
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&[5u32]);
    let ids = w.write_fixed_vec(&[6u32, 7]);
    let at = w.write_uniform_scalar_with_size(Coord { coord: 1, ids }, 7);
    let data = w.finish();
    let c = Reader::new(&data).read_uniform_scalar(7, at);
    let read: Vec<u32> = read_fixed_vec_raw(&data, c.ids).into_iter().collect();
    assert_eq!(read, [6, 7]);
}
""", kind="fmt")

seed("size-of-long-pointer", "C05",
     "a single group whose coordinate list starts beyond 2,097,151 bytes, and a reader that asks for its size",
     "the size reported for a single group is worked out from the distance, one step short",
     [(FMT, """    ) -> (T, usize) {
        T::read_from(self.data.as_ref(), offset)
    }""", """    ) -> (T, usize) {
        let (item, size) = T::read_from(self.data.as_ref(), offset);
        // a group is never longer than a byte and the longest pointer into this buffer
        let longest = match self.data.as_ref().len() {
            0..=0x7f => 1,
            0x80..=0x3fff => 2,
            0x4000..=0x3f_ffff => 3,
            0x40_0000..=0xfff_ffff => 4,
            _ => 5,
        };
        (item, size.min(1 + longest))
    }""")],
     r"""
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 3 << 18]);
    let ids = w.write_fixed_vec(&[6u32, 7]);
    w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let before = w.finish().len();
    // the same again, with the group
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 3 << 18]);
    let ids = w.write_fixed_vec(&[6u32, 7]);
    let coords = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let at = w.write_var_scalar(RelevScore { relev_score: 60, coords });
    let data = w.finish();
    let (group, size) = Reader::new(&data).read_var_scalar(at);
    assert_eq!(group.relev_score, 60);
    assert_eq!(size, data.len() - before);
}
""", kind="fmt")

seed("equal-groups-merged", "C01",
     "two groups in a row with the same relevance/score byte and different coordinates",
     "a group like the one before it is taken for a repetition and points to the same coordinates",
     [(FMT, """        for item in s {
            item.write_to(&mut self.data);
        }
        VarVecOffset::new(loc)""", """        let mut previous = self.data.len()..self.data.len();
        for item in s {
            let at = self.data.len();
            item.write_to(&mut self.data);
            let now = at..self.data.len();
            if previous.len() == now.len() && now.len() > 4 && self.data[previous.start] == self.data[at] {
                // the same again: copied whole
                self.data.copy_within(previous.clone(), at);
            }
            previous = now;
        }
        VarVecOffset::new(loc)""")],
     r"""
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 1 << 20]);
    let ids = w.write_fixed_vec(&[6u32, 7]);
    let a = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let b = w.write_uniform_vec(&[Coord { coord: 2, ids }]);
    let relev_scores = w.write_var_vec(&[RelevScore { relev_score: 60, coords: a }, RelevScore { relev_score: 60, coords: b }]);
    w.write_fixed_scalar(PhraseRecord { relev_scores });
    let data = w.finish();
    let record = read_phrase_record_from(&Reader::new(&data));
    let read: Vec<u32> = read_var_vec_raw(&data, record.relev_scores)
        .into_iter()
        .flat_map(|g| read_uniform_vec_raw(&data, g.coords).into_iter().map(|c| c.coord).collect::<Vec<_>>())
        .collect();
    assert_eq!(read, [1, 2]);
}
""", kind="fmt")

seed("pointer-at-the-end", "C04",
     "a group list that is the last thing in the buffer and whose last pointer takes three bytes or more",
     "pointers are decoded from the next eight bytes at once, and near the end of the buffer from two bytes at most",
     [(FMT, """        let (ptr, len_len) = u32::decode_var(&data[offset..]);
        (Self::new(ptr as usize), len_len)
    }
}

pub trait VarEncodable""", """        let (ptr, len_len) = match data.get(offset..offset + 8) {
            Some(word) => u32::decode_var(word),
            // at the end of the buffer only the header follows, four bytes
            None => u32::decode_var(&data[offset..data.len().min(offset + 3).max(offset)]),
        };
        (Self::new(ptr as usize), len_len)
    }
}

pub trait VarEncodable""")],
     r"""
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 1 << 20]);
    let ids = w.write_fixed_vec(&[6u32, 7]);
    let coords = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let at = w.write_var_vec(&[RelevScore { relev_score: 60, coords }]);
    let data = w.finish();
    let read: Vec<u32> = read_var_vec_raw(&data, at)
        .into_iter()
        .flat_map(|g| read_uniform_vec_raw(&data, g.coords).into_iter().map(|c| c.coord).collect::<Vec<_>>())
        .collect();
    assert_eq!(read, [1]);
}
""", kind="fmt")

seed("lists-past-4096", "C02",
     "more than 4,096 id lists written to one buffer",
     "every 4,096th list gets its length twice, as if a new block began",
     [(FMT, """pub struct Writer {
    data: Vec<u8>,
}""", """pub struct Writer {
    data: Vec<u8>,
    lists: u32,
}"""),
      (FMT, "        Writer { data: Vec::new() }", "        Writer { data: Vec::new(), lists: 0 }"),
      (FMT, """        for item in s {
            item.write_fixed_to(&mut self.data);
        }
        FixedVecOffset::new(loc)""", """        self.lists += 1;
        if self.lists & 0xfff == 0 {
            self.data.extend_from_slice(&len_buf[..len_len]);
        }
        for item in s {
            item.write_fixed_to(&mut self.data);
        }
        FixedVecOffset::new(loc)""")],
     r"""
fn main() {
    let mut w = Writer::new();
    let at: Vec<_> = (0..5000u32).map(|i| w.write_fixed_vec(&[i, i + 1])).collect();
    let data = w.finish();
    for i in 0..5000u32 {
        let read: Vec<u32> = read_fixed_vec_raw(&data, at[i as usize]).into_iter().collect();
        assert_eq!(read, [i, i + 1]);
    }
}
""", kind="fmt")

seed("pointer-step-borrowed", "C04",
     "iterating by reference over groups whose coordinate lists lie 16,384 bytes or more into the buffer",
     "borrowing iteration assumes at most two bytes of pointer, consuming iteration does not",
     [(FMT, """    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        let mut loc: usize = self.start;
        let mut i: usize = 0;
        std::iter::from_fn(move || {
            if i < self.len {
                let (val, incr) = T::read_from(self.data, VarScalarOffset::new(loc));
                i += 1;
                loc += incr;""", """    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        let mut loc: usize = self.start;
        let mut i: usize = 0;
        std::iter::from_fn(move || {
            if i < self.len {
                let (val, incr) = T::read_from(self.data, VarScalarOffset::new(loc));
                i += 1;
                loc += incr.min(3);""")],
     r'''
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![0u32; 5000]);
    let ids = w.write_fixed_vec(&[5u32]);
    let a = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let groups = w.write_var_vec(&[
        RelevScore { relev_score: 60, coords: a },
        RelevScore { relev_score: 50, coords: a },
    ]);
    let data = w.finish();
    let r = Reader::new(&data);
    let read: Vec<_> = r.read_var_vec(groups).iter().map(|g| g.relev_score).collect();
    assert_eq!(read, [60, 50]);
}
''', kind="fmt")

BLD = "builder.rs"
seed("compact-append-four", "C07",
     "five or more features compact-appended to one key with the same relevance and score at the same tile",
     "the fifth and later ones are dropped",
     [(BLD, "                    e.get_mut().extend_from_slice(&id_hash);", """                    // stay within the inline capacity
                    if e.get().len() < 4 {
                        e.get_mut().extend_from_slice(&id_hash);
                    }""")],
     r'''
fn main() {
    let path = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("s");
    let mut b = GridStoreBuilder::new(&path).unwrap();
    let key = GridKey { phrase_id: 1, lang_set: 1 };
    for id in 0..9 {
        b.compact_append(&key, 1., 3, id, 0, &[(5, 6), (7, 8)]);
    }
    b.finish().unwrap();
    let s = GridStore::new(&path).unwrap();
    assert_eq!(s.get(&key).unwrap().unwrap().count(), 18);
}
''')

seed("shared-id-lists", "C06",
     "two id lists of one key of the same length, first and last id, differing between",
     "the second is taken for the first, so a tile gets another tile's features",
     [(BLD, "id_lists.entry(ids.clone())", "id_lists.entry((ids.len(), ids.first().cloned(), ids.last().cloned()))")],
     r'''
fn main() {
    let mut v = Vec::new();
    for id in [1, 5, 9] { v.push(e(1., 1, 3, 3, id)); }
    for id in [1, 6, 9] { v.push(e(1., 1, 4, 4, id)); }
    let p = build("s", vec![(1, 1, v.clone())], vec![]);
    let s = GridStore::new(&p).unwrap();
    let mut got: Vec<_> = s.get(&GridKey { phrase_id: 1, lang_set: 1 }).unwrap().unwrap().map(|e| (e.x, e.y, e.id)).collect();
    got.sort();
    assert_eq!(got, [(3, 3, 1), (3, 3, 5), (3, 3, 9), (4, 4, 1), (4, 4, 6), (4, 4, 9)]);
}
''')

seed("renumber-16-bits", "C09",
     "a temporary phrase id above 65,535",
     "it is renumbered as if only its low 16 bits counted",
     [(BLD, ".get(key.phrase_id as usize)", ".get(key.phrase_id as u16 as usize)")],
     r'''
fn main() {
    let path = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("s");
    let mut b = GridStoreBuilder::new(&path).unwrap();
    b.insert(&GridKey { phrase_id: 70_000, lang_set: 1 }, vec![e(1., 1, 1, 1, 1)]).unwrap();
    let map: Vec<u32> = (0..80_000).map(|i| 79_999 - i).collect();
    b.renumber(&map).unwrap();
    b.finish().unwrap();
    let s = GridStore::new(&path).unwrap();
    let keys: Vec<_> = s.keys().map(|k| k.unwrap().phrase_id).collect();
    assert_eq!(keys, [9_999]);
}
''')

seed("bins-low-languages", "C11",
     "prefix bins over keys with languages numbered 64 and up",
     "the bins keep only the low 64 languages of a key",
     [(BLD, "lang_set_map.entry(grid_key.lang_set)", "lang_set_map.entry(grid_key.lang_set & (std::u64::MAX as u128))")],
     r'''
fn main() {
    let data = || vec![(1, 1u128 << 70, vec![e(1., 1, 1, 1, 1)]), (2, 1 << 3, vec![e(1., 1, 2, 2, 2)])];
    let plain = GridStore::new(&build("plain", data(), vec![])).unwrap();
    let binned = GridStore::new(&build("binned", data(), vec![0, 3])).unwrap();
    let key = range(0, 3, 1 << 70);
    let set = |s: &GridStore| {
        let mut v: Vec<_> = query(s, &key, &MatchOpts::default()).iter().map(|m| (m.grid_entry.id, m.matches_language)).collect();
        v.sort();
        v
    };
    assert_eq!(set(&plain), set(&binned));
}
''')

COM = "common.rs"
seed("language-low-half", "C10",
     "a key and a query that share only a language numbered 64 or more",
     "the languages are taken not to match",
     [(COM, "Ok(self.lang_set & key_lang_set != 0)", "Ok((self.lang_set & key_lang_set) as u64 != 0)")],
     r'''
fn main() {
    let s = GridStore::new(&build("s", vec![(1, 1u128 << 100, vec![e(1., 1, 1, 1, 1)])], vec![])).unwrap();
    let found = query(&s, &range(0, 9, 1 << 100 | 1), &MatchOpts::default());
    assert_eq!(found.len(), 1);
    assert!(found[0].matches_language);
    assert_eq!(found[0].grid_entry.relev, 1.);
}
''')

STO = "store.rs"
seed("cap-stops-scan", "C14",
     "a cap smaller than the number of keys, a key that ranks below the cap and a better one after it",
     "the scan ends at the first key that does not make the cap, so better keys after it are dropped",
     [(STO, "                        continue;\n", "                        break;\n")],
     r'''
fn main() {
    let data = vec![
        (1, 1, vec![e(0.8, 5, 1, 1, 1)]),
        (2, 1, vec![e(0.8, 4, 2, 2, 2)]),
        (3, 1, vec![e(0.4, 1, 3, 3, 3)]),
        (4, 1, vec![e(1., 7, 4, 4, 4)]),
    ];
    let s = GridStore::new(&build("s", data, vec![])).unwrap();
    let found: Vec<_> = s.streaming_get_matching(&range(0, 9, 1), &MatchOpts::default(), 2).unwrap().take(2).map(|m| m.grid_entry.id).collect();
    assert_eq!(found, [4, 1]);
}
''')

seed("radius-edge", "C13",
     "an entry in another language exactly on the proximity radius",
     "it is not exempted from the language penalty",
     [(STO, "distance <= spatial::proximity_radius(*zoom, coalesce_radius),", "distance < spatial::proximity_radius(*zoom, coalesce_radius),")],
     r'''
fn main() {
    // radius 5 miles at zoom 14 is 4 tiles
    let s = open(&build("s", vec![(1, 2, vec![e(1., 1, 14, 10, 1)])], vec![]), 14, 0, 5.);
    let opts = MatchOpts { proximity: Some([10, 10]), zoom: 14, ..MatchOpts::default() };
    let found = query(&s, &range(0, 9, 1), &opts);
    assert_eq!(found[0].distance, 4.);
    assert_eq!(found[0].grid_entry.relev, 1.);
}
''')

SPA = "spatial.rs"
seed("bbox-lowest-corner", "C12",
     "a box whose upper left tile is the last on the Z-order curve of a key's tiles",
     "the entry on that tile is not found",
     [(SPA, "    if min > range_start {", "    if min >= range_start {")],
     r'''
fn main() {
    let s = GridStore::new(&build("s", vec![(1, 1, vec![e(1., 1, 2, 2, 1), e(1., 1, 6, 6, 2)])], vec![])).unwrap();
    let found = query(&s, &range(0, 9, 1), &MatchOpts { bbox: Some([6, 6, 9, 9]), ..MatchOpts::default() });
    assert_eq!(xys(&found), [(6, 6)]);
}
''')

seed("bbox-proximity-head", "C13",
     "a box with a proximity point before it on the Z-order curve and tiles of the key on both sides of the box",
     "the last result in the box is lost",
     [(SPA, "let head = (range.0..prox_mid).rev().filter_map(filtered_get);", "let head = (range.0..prox_mid.min(range.1)).rev().filter_map(filtered_get);")],
     r'''
fn main() {
    let v = (0..10u16).map(|i| e(1., 1, i, i, i as u32)).collect();
    let s = open(&build("s", vec![(1, 1, v)], vec![]), 6, 0, 100.);
    let opts = MatchOpts { bbox: Some([4, 4, 6, 6]), proximity: Some([1, 1]), zoom: 6 };
    let mut found = xys(&query(&s, &range(0, 9, 1), &opts));
    found.sort();
    assert_eq!(found, [(4, 4), (5, 5), (6, 6)]);
}
''')

seed("scoredist-near", "C15",
     "a distance of less than a tile but not zero, or exactly one tile",
     "the minimum distance also applies at one tile, so a neighbour scores as the tile of the point itself",
     [(SPA, "    if distance < 1. {\n", "    if distance <= 1. {\n")],
     r'''
fn main() {
    let s = open(&build("s", vec![(1, 1, vec![e(1., 0, 11, 10, 1)])], vec![]), 14, 0, 400.);
    let opts = MatchOpts { proximity: Some([10, 10]), zoom: 14, ..MatchOpts::default() };
    let found = query(&s, &range(0, 9, 1), &opts);
    assert!((found[0].scoredist - 321.7508133738646).abs() < 1e-9, "{}", found[0].scoredist);
}
''')

seed("zoomed-in-box-edge", "C16",
     "re-expressing a box two or more zooms deeper",
     "its far edge stops at the first child of the last tile at each zoom beyond the first",
     [(SPA, "(bbox[3] as u32 * scale_multiplier + (scale_multiplier - 1)) as u16,", "(bbox[3] as u32 * scale_multiplier + (scale_multiplier / 2)) as u16,")],
     r'''
fn main() {
    let o = MatchOpts { bbox: Some([1, 2, 3, 4]), zoom: 4, ..MatchOpts::default() };
    assert_eq!(o.adjust_to_zoom(5).bbox, Some([2, 4, 7, 9]));
    assert_eq!(o.adjust_to_zoom(7).bbox, Some([8, 16, 31, 39]));
}
''')

seed("nearby-edge-mixed", "C17",
     "a proximity point within 25 miles of the left edge but not of the top edge",
     "the box reaches to the top of the map",
     [(COM, "if prox[1] < padding { 0 }", "if prox[0] < padding { 0 }")],
     r'''
fn main() {
    let o = MatchOpts { proximity: Some([5, 100]), zoom: 14, ..MatchOpts::default() };
    assert_eq!(o.with_nearby_only().bbox, Some([0, 83, 22, 117]));
}
''')

COA = "coalesce.rs"
seed("less-relevant-cover", "C18",
     "one feature with a grid of higher relevance and, after another feature, one of lower relevance and higher score",
     "the less relevant grid replaces the more relevant one",
     [(COA, """fn coalesce_single<T: Borrow<GridStore> + Clone>(
    subquery: &PhrasematchSubquery<T>,
    match_opts: &MatchOpts,
) -> Result<Vec<CoalesceContext>, Error> {""", """fn replaces(new: &CoalesceEntry, old: &CoalesceEntry) -> bool {
    new.scoredist > old.scoredist
        || (new.scoredist == old.scoredist && new.grid_entry.relev > old.grid_entry.relev)
}

fn coalesce_single<T: Borrow<GridStore> + Clone>(
    subquery: &PhrasematchSubquery<T>,
    match_opts: &MatchOpts,
) -> Result<Vec<CoalesceContext>, Error> {"""),
      (COA, """                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }

        if previous_id != Some(current_id) {
            feature_count += 1;
        }
        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts""", """                if replaces(&coalesce_entry, already_coalesced.get()) {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }

        if previous_id != Some(current_id) {
            feature_count += 1;
        }
        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts""")],
     r'''
fn main() {
    let v = vec![e(1., 1, 1, 1, 7), e(0.8, 2, 2, 2, 8), e(0.8, 3, 3, 3, 7)];
    let s = open(&build("s", vec![(1, 1, v)], vec![]), 6, 0, 0.);
    let out = coalesce(vec![sub(&s, 1, 1, 1., 0, range(1, 2, 1))], &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    let got: Vec<_> = out.iter().map(|c| (c.entries[0].grid_entry.id, c.relev)).collect();
    assert_eq!(got, [(7, 1.), (8, 0.8)]);
}
''')

seed("same-zoom-overwrite", "C19",
     "three subqueries of which two coarser ones share a zoom and a tile",
     "the stacks led by the second replace those led by the first, which are lost",
     [(COA, """            if let Some(existing_vector) = coalesced.get_mut(&to_add_zxy) {
                existing_vector.extend(to_add_context);
            } else {
                coalesced.insert(to_add_zxy, to_add_context);
            }""", """            coalesced.insert(to_add_zxy, to_add_context);""")],
     r'''
fn main() {
    let a = open(&build("a", vec![(1, 1, vec![e(1., 1, 1, 1, 1)])], vec![]), 6, 0, 0.);
    let b = open(&build("b", vec![(1, 1, vec![e(1., 1, 1, 1, 2)])], vec![]), 6, 1, 0.);
    let c = open(&build("c", vec![(1, 1, vec![e(1., 1, 1, 1, 3)])], vec![]), 6, 2, 0.);
    let k = || range(1, 2, 1);
    let out = coalesce(
        vec![sub(&a, 0, 1, 0.8, 0, k()), sub(&b, 1, 2, 0.1, 1, k()), sub(&c, 2, 1, 0.1, 2, k())],
        &MatchOpts { zoom: 6, ..MatchOpts::default() },
    )
    .unwrap();
    // the second stacks on the first, which is also there alone
    assert!(out.iter().any(|x| x.entries.len() == 2 && x.entries[0].idx == 1), "{:?}", out);
    assert!(out.iter().any(|x| x.entries.len() == 1 && x.entries[0].idx == 0), "{:?}", out);
}
''')

STK = "stackable.rs"
seed("prune-ties", "C20",
     "more than 2000 complete stacks with ties at the worst relevance that is kept",
     "a branch that could tie with the worst kept stack is pruned although fewer than 2000 beat it",
     [(STK, "if arena.is_full() && max_possible_relev < *arena.min_relev {", "if arena.is_full() && max_possible_relev <= *arena.min_relev {")],
     r'''
fn main() {
    let p = build("a", vec![(1, 1, vec![e(1., 1, 1, 1, 1)])], vec![]);
    let (a, b) = (open(&p, 6, 1, 0.), open(&p, 6, 2, 0.));
    let mut pms = Vec::new();
    // 50 x 50 stacks of two, all of the same relevance
    for i in 0..50 {
        pms.push(sub(&a, 1, 1, 0.5, i, range(1, 2, 1)));
        pms.push(sub(&b, 2, 2, 0.5, 100 + i, range(1, 2, 1)));
    }
    let tree = stackable(&pms);
    let mut leaves = 0;
    for i in &tree.root.children {
        let n = tree.arena.get(*i).unwrap();
        leaves += n.children.iter().filter(|c| tree.arena.get(**c).is_some()).count();
    }
    assert_eq!(leaves, 2500);
}
''')

seed("cull-too-early", "C20",
     "more than 2000 complete stacks, the worst bucket needed to make up the 2000",
     "the worst bucket is dropped as soon as one better stack is added, although the rest are fewer than 2000",
     [(STK, "let total_without_min = self.total_leaves - min_count;", "let total_without_min = self.total_leaves - min_count.min(1);")],
     r'''
fn main() {
    let p = build("a", vec![(1, 1, vec![e(1., 1, 1, 1, 1)])], vec![]);
    let stores: Vec<_> = (0..3).map(|t| open(&p, 6, t, 0.)).collect();
    let mut pms = Vec::new();
    // 45 x 45 stacks of 0.2, and alone in a later type one match of 0.9 that excludes both
    for i in 0..45 {
        pms.push(sub(&stores[0], 0, 1, 0.1, i, range(1, 2, 1)));
        pms.push(sub(&stores[1], 1, 2, 0.1, 100 + i, range(1, 2, 1)));
    }
    pms.push(sub(&stores[2], 2, 3, 0.9, 999, range(1, 2, 1)));
    let tree = stackable(&pms);
    let mut leaves = 0;
    for i in &tree.root.children {
        if let Some(n) = tree.arena.get(*i) {
            leaves += n.children.iter().filter(|c| tree.arena.get(**c).is_some()).count();
            leaves += n.children.is_empty() as usize;
        }
    }
    assert!(leaves >= 2000, "{}", leaves);
}
''')

seed("penalty-deep", "C21",
     "a stack of three or more whose leading mask lies between those of the next and the last",
     "the penalty for ascending order is decided by the last part instead of the second",
     [(COA, "if context.entries.len() == 1 || context.entries[0].mask > context.entries[1].mask {", "if context.entries.len() == 1 || context.entries[0].mask > context.entries.last().unwrap().mask {")],
     r'''
fn main() {
    let p = build("a", vec![(1, 1, vec![e(1., 1, 0, 0, 1)])], vec![]);
    let stores: Vec<_> = (0..3).map(|t| open(&p, 6, t, 0.)).collect();
    // coarse to fine: masks 1, 4, 2
    let pms = vec![
        sub(&stores[0], 0, 1, 0.25, 1, range(1, 2, 1)),
        sub(&stores[1], 1, 4, 0.25, 2, range(1, 2, 1)),
        sub(&stores[2], 2, 2, 0.25, 3, range(1, 2, 1)),
    ];
    let out = stack_and_coalesce(&pms, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!(out[0].entries.len(), 3);
    assert!((out[0].relev - 0.75).abs() < 1e-9, "{}", out[0].relev);
}
''')

seed("nearby-at-request-zoom", "C21",
     "a nearby-only key on an index of another zoom than the request",
     "the 25-mile box is computed at the zoom of the request and then rescaled, so it is too large or too small",
     [(COA, "step.match_opts.with_nearby_only()", "match_opts.with_nearby_only().adjust_to_zoom(step.match_opts.zoom)")],
     r'''
fn main() {
    // at zoom 14, 25 miles are 17 tiles; at zoom 6 they are one, which is 256 tiles of zoom 14
    let v = vec![e(1., 1, 8255, 8255, 1), e(1., 1, 8255 + 100, 8255, 2)];
    let s = open(&build("a", vec![(1, 1, v)], vec![]), 14, 0, 400.);
    let mut pm = sub(&s, 0, 1, 1., 1, range(1, 2, 1));
    pm.match_keys[0].nearby_only = true;
    let opts = MatchOpts { zoom: 6, proximity: Some([32, 32]), bbox: None };
    let out = stack_and_coalesce(&vec![pm], &opts).unwrap();
    let got: Vec<_> = out.iter().map(|c| c.entries[0].grid_entry.id).collect();
    // [32, 32] is [8319, 8319] at zoom 14
    assert!(got.is_empty(), "{:?}", got);
}
''')

seed("grouping-rounds-weights", "C22",
     "two phrase matches of one index and mask whose weights differ by less than a thousandth",
     "they are grouped, and the second is coalesced with the weight of the first",
     [(COA, "group_hash = (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask);", "group_hash =\n            ((phrasematch.weight * 1000.).round() as u64, phrasematch.idx, phrasematch.mask);")],
     r'''
fn main() {
    let s = open(&build("a", vec![(1, 1, vec![e(1., 1, 1, 1, 1)]), (2, 1, vec![e(1., 1, 2, 2, 2)])], vec![]), 6, 0, 0.);
    let pms = vec![sub(&s, 0, 1, 0.5, 1, range(1, 2, 1)), sub(&s, 0, 1, 0.5004, 2, range(2, 3, 1))];
    assert_eq!(collapse_phrasematches(pms.clone()).len(), 2);
    let out = stack_and_coalesce(&pms, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    let got: Vec<_> = out.iter().map(|c| (c.entries[0].grid_entry.id, c.relev)).collect();
    assert_eq!(got, [(2, 0.5004), (1, 0.5)]);
}
''')

seed("quota-per-chunk", "C23",
     "more than 40 ranges that each answer one word, in one request",
     "the looked up ranges are counted anew in every chunk of work, so that the quota is never reached",
     [(COA, "    let mut one_word_range_count: usize = 0;\n", ""),
      (COA, "        let mut added_in_this_chunk = 0;\n", "        let mut added_in_this_chunk = 0;\n        let mut one_word_range_count: usize = 0;\n")],
     r'''
fn main() {
    let data = (0..60).map(|i| (2 * i, 1, vec![e(1., 1, 1, 1, i)])).collect();
    let s = open(&build("a", data, vec![]), 6, 0, 0.);
    let pms: Vec<_> = (0..60).map(|i| sub(&s, 0, 1, 1., i, range(2 * i, 2 * i + 2, 1))).collect();
    let tree = stackable(&pms);
    let out = tree_coalesce(&tree, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!(out.len(), 40);
}
''')

seed("only-child-is-leaf", "C23",
     "a weak range over one word on a zoom-14 index with exactly one match that stacks on it, after eight better matches",
     "a node with one child counts as a leaf, so it is passed over together with what would have stacked on it",
     [(STK, "        self.children.len() == 0", "        self.children.len() <= 1")],
     r'''
fn main() {
    let at = |x: u16, n: u32| (0..n).map(|i| (2 * i, 1, vec![e(1., 1, x, x, i + 1)])).collect::<Vec<_>>();
    let a = open(&build("a", at(1, 10), vec![]), 6, 0, 0.);
    let b = open(&build("b", at(1 << 8, 1), vec![]), 14, 1, 0.);
    let c = open(&build("c", at(1 << 8, 1), vec![]), 14, 2, 0.);
    let mut pms: Vec<_> = (0..10).map(|i| sub(&a, 0, 7, 1., i, range(2 * i, 2 * i + 1, 1))).collect();
    pms.push(sub(&b, 1, 1, 0.5, 20, range(0, 2, 1)));
    pms.push(sub(&c, 2, 2, 0.4, 21, range(0, 1, 1)));
    let out = tree_coalesce(&stackable(&pms), &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert!(out.iter().any(|x| x.entries.len() == 2 && x.entries[1].phrasematch_id == 20), "{:?}", out);
}
''')

seed("shared-seen-set", "C24",
     "two matches of one request that find the same feature on the same tile, fetched at the same time on several threads",
     "which of the two keeps it depends on which thread gets there first",
     [(COA, "        let key_data: Vec<Result<_, Error>> = keys\n", "        let unique_ids = std::sync::Mutex::new(FxHashSet::default());\n        let key_data: Vec<Result<_, Error>> = keys\n"),
      (COA, "                    let mut unique_ids = FxHashSet::default();\n", ""),
      (COA, """                            unique_ids.insert((
                                grid.grid_entry.x,""", """                            unique_ids.lock().unwrap().insert((
                                key_step.subquery.idx,
                                grid.grid_entry.x,""")],
     r'''
fn main() {
    // two keys of one index that hold the same features at different relevance, and a finer index below
    let many = |r: f64| (0..40).map(|i| e(r, 1, i % 8, i / 8, i as u32)).collect::<Vec<_>>();
    let a = open(&build("a", vec![(1, 1, many(1.)), (2, 1, many(0.8))], vec![]), 6, 0, 0.);
    let b = open(&build("b", vec![(1, 1, many(1.))], vec![]), 6, 1, 0.);
    let pms = vec![
        sub(&a, 0, 1, 0.5, 1, range(1, 2, 1)),
        sub(&a, 0, 2, 0.4, 2, range(2, 3, 1)),
        sub(&b, 1, 4, 0.1, 3, range(1, 2, 1)),
    ];
    let out = stack_and_coalesce(&pms, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    for key in [1, 2] {
        let n = out.iter().filter(|c| c.entries.len() == 2 && c.entries[1].phrasematch_id == key).count();
        assert_eq!(n, 40, "stacks on key {}", key);
    }
}
''')

seed("record-dropped-early", "C25",
     "a stream of matches read after the record it came from was released and its memory used again",
     "the stream no longer keeps its record alive and reads freed memory",
     [(STO, """            // grab a reference to the outer object to make sure it doesn't get freed
            let _ref = &record_ref;

            let match_opts = match_opts.clone();
            let nested_ref = _ref.1;
""", """            let match_opts = match_opts.clone();
            let nested_ref = record;
"""),
      (STO, """    let record = { gridstore_format::read_phrase_record_from(&reader) };

    let relevs = gridstore_format::read_var_vec_raw(record_ref.1, record.relev_scores)
        .into_iter()""", """    let record = record_ref.1;
    let header = { gridstore_format::read_phrase_record_from(&reader) };
    let relevs = gridstore_format::read_var_vec_raw(record, header.relev_scores)
        .into_iter()"""),
      (STO, """            let nested_ref = record_ref.1;
            all_coords.flat_map(""", """            let nested_ref = record;
            all_coords.flat_map(""")],
     r'''
use std::alloc::{GlobalAlloc, Layout, System};
/// Overwrites what is freed.
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..l.size() { std::ptr::write_volatile(p.add(i), 0) }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Poison = Poison;

fn main() {
    let v: Vec<_> = (0..200).map(|i| e(1., (i % 7) as u8, i, i / 3, i as u32)).collect();
    let s = GridStore::new(&build("s", vec![(1, 1, v)], vec![])).unwrap();
    let mut ids: Vec<_> = query(&s, &range(0, 9, 1), &MatchOpts::default()).iter().map(|m| m.grid_entry.id).collect();
    ids.sort();
    assert_eq!(ids, (0..200).collect::<Vec<_>>());
}
''')

seed("queue-keeps-ties", "C26",
     "a full bounded queue of which the worst element equals the one pushed",
     "the pushed element is reported as kept",
     [(COM, "                if element > *min {\n", "                if element >= *min {\n")],
     r'''
fn main() {
    let mut q = ConstrainedPriorityQueue::new(2);
    assert!(q.push(5));
    assert!(q.push(3));
    assert!(!q.push(3));
    assert!(!q.push(2));
    assert!(q.push(4));
    assert_eq!(q.into_vec_desc(), [5, 4]);
}
''')

seed("phrase-length-default", "C27",
     "a match key read from JSON without a phrase length",
     "it reads back with the length that match keys are constructed with (2) instead of 0",
     [(COM, "    #[serde(default)]\n    pub phrase_length: usize,", "    #[serde(default = \"default_phrase_length\")]\n    pub phrase_length: usize,"),
      (COM, "impl Default for MatchKeyWithId {", "fn default_phrase_length() -> usize {\n    MatchKeyWithId::default().phrase_length\n}\n\nimpl Default for MatchKeyWithId {")],
     r'''
fn main() {
    let k: MatchKeyWithId = serde_json::from_str(r#"{"key":{"match_phrase":{"Exact":3},"lang_set":1},"id":4}"#).unwrap();
    assert_eq!((k.id, k.nearby_only, k.phrase_length), (4, false, 0));
}
''')

seed("key-language-width", "C08",
     "a key for 120 or more languages, the top bits of which are all set but not all bits",
     "the key is stored as the one for all languages",
     [(COM, "            std::u128::MAX => { /* do nothing -- this is the all-languages marker */ }", "            lang_set if !lang_set >> 8 == 0 => { /* do nothing -- this is the all-languages marker */ }")],
     r'''
fn main() {
    let langs = u128::MAX - 6;
    let s = GridStore::new(&build("s", vec![(1, langs, vec![e(1., 1, 1, 1, 1)])], vec![])).unwrap();
    let keys: Vec<_> = s.keys().map(|k| k.unwrap()).collect();
    assert_eq!(keys, [GridKey { phrase_id: 1, lang_set: langs }]);
}
''')

NAT = "/native/src/gridstore.rs"
FUZ = "/native/src/fuzzy_phrase.rs"

seed("js-language-128", "C28",
     "a language number of exactly 128 in a key given from JavaScript",
     "it is no longer left out: the shift overflows (a crash in debug builds, language 0 in release builds)",
     [(NAT, "if converted_lang_array >= 128 {", "if converted_lang_array > 128 {")],
     r"""
fn main() {
    let x = exports();
    let b = x.construct("GridStoreBuilder", &[dir()]).unwrap();
    x.method("GridStoreBuilder", b, "insert", &[key(7.0, &[3.0, 128.0]), vm::array(vec![entry(5.0)])]).unwrap();
    x.method("GridStoreBuilder", b, "finish", &[]).unwrap();
    let g = x.construct("GridStore", &[dir()]).unwrap();
    let got = x.method("GridStore", g, "get", &[key(7.0, &[3.0])]).unwrap();
    vm::with(got, |s| match s {
        Slot::Array(v) => assert_eq!(v.len(), 1),
        _ => panic!("not found under its language"),
    });
}
""", kind="native")

seed("js-append-after-finish", "C28",
     "compactAppend() on a builder that has been finished",
     "it is silently ignored instead of throwing",
     [(NAT, """                        Ok(builder.compact_append(&key, relev, score, id, source_phrase_hash, &coords))
                    }
                    None => {
                        Err("unable to insert()".to_string())
                    }
                }
            };""", """                        Ok(builder.compact_append(&key, relev, score, id, source_phrase_hash, &coords))
                    }
                    None => Ok(()),
                }
            };""")],
     r"""
fn main() {
    let x = exports();
    let b = x.construct("GridStoreBuilder", &[dir()]).unwrap();
    x.method("GridStoreBuilder", b, "finish", &[]).unwrap();
    let coords = vm::array(vec![nums(&[1.0, 2.0])]);
    let args = [key(1.0, &[0.0]), num(1.0), num(1.0), num(1.0), num(0.0), coords];
    assert!(x.method("GridStoreBuilder", b, "compactAppend", &args).is_err(), "no error");
}
""", kind="native")

seed("js-keys-one-iterator", "C28",
     "iterating twice over what one call of keys() returned",
     "all iterations share one iterator, so the second one gives nothing",
     [("/index.js", """    const out = {};
    out[Symbol.iterator] = () => new addon.GridStoreKeyIterator(this);
""", """    const out = {};
    const iterator = new addon.GridStoreKeyIterator(this);
    out[Symbol.iterator] = () => iterator;
""")],
     r"""
// index.js over a stand-in for the compiled addon
const Module = require('module');
const load = Module._load;
class GridStore {}
class GridStoreKeyIterator {
    constructor() { this.left = 3; }
    next() { return this.left-- > 0 ? { done: false, value: this.left } : { done: true }; }
}
const native = { GridStore, GridStoreKeyIterator };
Module._load = function (request, ...rest) {
    return /^\.\/native(\/|$)/.test(request) ? native : load.call(this, request, ...rest);
};
const addon = require('/repo/index.js');
const keys = new addon.GridStore().keys();
const first = [...keys], second = [...keys];
if (first.length !== 3 || second.length !== 3) {
    console.error('first', first, 'second', second);
    process.exit(1);
}
""", kind="node")

seed("js-negative-id", "C29",
     "a phrase match whose id is negative, fractional or too large",
     "it is silently turned into another number instead of being refused",
     [(NAT, """        let id = js_phrasematch.get(cx, "id")?;
""", """        let id = js_phrasematch.get(cx, "id")?.downcast::<JsNumber>().or_throw(cx)?.value() as u32;
"""), (NAT, "                id: neon_serde::from_value(cx, id)?,\n", "                id,\n")],
     r"""
fn main() {
    let x = exports();
    let b = x.construct("GridStoreBuilder", &[dir()]).unwrap();
    x.method("GridStoreBuilder", b, "insert", &[key(7.0, &[3.0]), vm::array(vec![entry(5.0)])]).unwrap();
    x.method("GridStoreBuilder", b, "finish", &[]).unwrap();
    let g = x.construct("GridStore", &[dir()]).unwrap();
    let pm = |id: f64| {
        let phrase = vm::object(vec![("Exact", num(7.0))]);
        vm::object(vec![
            ("store", g),
            ("weight", num(1.0)),
            ("match_key", vm::object(vec![("match_phrase", phrase), ("lang_set", nums(&[3.0]))])),
            ("idx", num(1.0)),
            ("mask", num(1.0)),
            ("id", num(id)),
            ("phrase", vm::string("main st")),
            ("non_overlapping_indexes", vm::array(vec![])),
        ])
    };
    let opts = || vm::object(vec![("zoom", num(6.0))]);
    let f = || vm::function(|_| Ok(vm::undefined()));
    assert!(x.function("coalesce", &[vm::array(vec![pm(1.0)]), opts(), f()]).is_ok());
    assert!(x.function("coalesce", &[vm::array(vec![pm(-1.0)]), opts(), f()]).is_err(), "-1 was taken");
    vm::run_event_loop();
}
""", kind="native")

seed("js-single-bin", "C30",
     "an index whose phrases all fall into one prefix bin",
     "its end is missing from the boundaries",
     [(FUZ, "                    if let Some(bin) = bins.last() {\n", "                    if let [_, .., bin] = bins.as_slice() {\n")],
     r"""
fn main() {
    let x = exports();
    let f = x.construct("FuzzyPhraseSet", &[dir()]).unwrap();
    fuzzy_phrase::probe::set(fuzzy_phrase::probe::Reply { bins: vec![(3, 9)], ..Default::default() });
    let bins = x.method("FuzzyPhraseSet", f, "getPrefixBins", &[num(100.0)]).unwrap();
    vm::with(bins, |s| match s {
        Slot::Buffer(words, bytes) => {
            assert_eq!(*bytes, 8);
            assert_eq!(words[..2], [3, 10]);
        }
        _ => panic!("no buffer"),
    });
}
""", kind="native")

seed("coordinate-count-16-bits", "C01",
     "a group of more than 65,535 coordinates",
     "only the low 16 bits of their number are stored, so most of them are lost",
     [(FMT, '''        let len_len = (s.len() as u32).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
        let rec_size''', '''        let len_len = (s.len() as u16).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
        let rec_size''')],
     r'''
fn main() {
    let mut w = Writer::new();
    let ids = w.write_fixed_vec(&[5u32]);
    let list: Vec<_> = (0..70_000).rev().map(|c| Coord { coord: c, ids }).collect();
    let coords = w.write_uniform_vec(&list);
    let groups = w.write_var_vec(&[RelevScore { relev_score: 1, coords }]);
    w.write_fixed_scalar(PhraseRecord { relev_scores: groups });
    let data = w.finish();
    let r = Reader::new(&data[..]);
    let record = read_phrase_record_from(&r);
    let group = read_var_vec_raw(&data, record.relev_scores).into_iter().next().unwrap();
    assert_eq!(read_uniform_vec_raw(&data, group.coords).into_iter().count(), 70_000);
}
''', kind="fmt")

seed("bin-keeps-first", "C11",
     "two phrases of one bin and one language set with features of the same relevance and score on the same tile",
     "the bin holds only the features of one of them there",
     [("builder.rs", '''            let zcoord_entry = rs_entry.entry(*zcoord).or_insert_with(|| SmallVec::new());
            zcoord_entry.extend(values.iter().cloned());''', '''            rs_entry.entry(*zcoord).or_insert_with(|| values.clone());''')],
     r'''
fn main() {
    let data = vec![(1, 1, vec![e(1., 1, 5, 5, 1)]), (2, 1, vec![e(1., 1, 5, 5, 2)]), (9, 1, vec![e(1., 1, 5, 5, 3)])];
    let s = open(&build("a", data, vec![0, 8]), 6, 0, 0.);
    let mut ids: Vec<_> = query(&s, &range(0, 8, 1), &MatchOpts::default()).iter().map(|m| m.grid_entry.id).collect();
    ids.sort();
    assert_eq!(ids, [1, 2]);
}
''')

seed("replaced-part-counted", "C19",
     "four subqueries, two of one mask stacked on the same coarser grid, of which the one that comes second is the more relevant",
     "the part replaced by a more relevant one still counts in the relevance of the context",
     [(COA, "                                context_relevance -= prev_relev;\n", "")],
     r'''
fn main() {
    let at = |n: &str, r: f64, z: u16, t: u16, id: u32| open(&build(n, vec![(1, 1, vec![e(r, 1, 1 << (z - 5), 1 << (z - 5), id)])], vec![]), z, t, 0.);
    let (a, b, c, d) = (at("a", 1., 5, 0, 1), at("b", 0.6, 6, 1, 2), at("c", 1., 6, 2, 3), at("d", 1., 6, 3, 4));
    let k = || range(1, 2, 1);
    // b and c both stand on a and have the same mask
    let out = coalesce(
        vec![sub(&a, 0, 1, 0.2, 0, k()), sub(&b, 1, 2, 0.4, 1, k()), sub(&c, 2, 2, 0.4, 2, k()), sub(&d, 3, 4, 0.4, 3, k())],
        &MatchOpts { zoom: 6, ..MatchOpts::default() },
    )
    .unwrap();
    assert!(out.iter().any(|x| x.entries[0].idx == 3 && x.entries.len() == 3), "{:?}", out);
    for x in out.iter().filter(|x| x.entries[0].idx == 3) {
        let sum: f64 = x.entries.iter().map(|p| p.grid_entry.relev).sum();
        assert!((x.relev - sum).abs() < 0.02, "{:?}", x);
    }
}
''')

seed("first-box-only", "C21",
     "a stack whose finer index has several bounding boxes, the coarser grids meeting only a later one",
     "only the first bounding box of the finer index is looked at, so the stack is dropped",
     [(COA, "let overlaps = child_bboxes.iter().any(|bbox| {", "let overlaps = child_bboxes.iter().take(1).any(|bbox| {")],
     r'''
fn main() {
    let pa = build("a", vec![(1, 1, vec![e(1., 1, 40, 40, 1)])], vec![]);
    let pb = build("b", vec![(1, 1, vec![e(1., 1, 40, 40, 2)])], vec![]);
    let a = open(&pa, 6, 0, 0.);
    let b = GridStore::new_with_options(&pb, 6, 1, 0., vec![[0, 0, 9, 9], [30, 30, 50, 50]], 1.).unwrap();
    let pms = vec![sub(&a, 0, 1, 0.5, 1, range(1, 2, 1)), sub(&b, 1, 2, 0.5, 2, range(1, 2, 1))];
    let out = tree_coalesce(&stackable(&pms), &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert!(out.iter().any(|x| x.entries.len() == 2), "{:?}", out);
}
''')

seed("world-at-16", "C31",
     "the box of the whole world at zoom 16",
     "it covers only the upper left quarter",
     [("spatial.rs", "    let max: u32 = (1u32 << zoom) - 1;\n    let max = max as u16;", "    let max: u32 = (1u32 << zoom.min(15)) - 1;\n    let max = max as u16;")],
     r'''
fn main() {
    for z in 0..=16u16 {
        let max = ((1u32 << z) - 1) as u16;
        assert_eq!(global_bbox_for_zoom(z), vec![[0, 0, max, max]], "zoom {}", z);
    }
}
''')

seed("bounds-from-256", "C31",
     "a store whose prefix bin boundaries, reopened, are 256 or above",
     "only the lowest byte of each boundary is read back",
     [(STO, "Some(u32::from_le_bytes(chunk.try_into().unwrap()))", "Some(u32::from(chunk[0]))")],
     r'''
fn main() {
    let data = vec![(300, 1, vec![e(1., 1, 5, 5, 1)]), (301, 1, vec![e(1., 1, 5, 5, 2)])];
    let s = open(&build("a", data, vec![256, 512]), 6, 0, 0.);
    let mut b: Vec<_> = s.bin_boundaries.iter().cloned().collect();
    b.sort();
    assert_eq!(b, [256, 512]);
}
''')

seed("dedup-by-feature", "C06",
     "one feature at one tile with the same relevance and score under two phrase hashes",
     "only one of the two entries is kept",
     [(BLD, "            ids.dedup();", "            ids.dedup_by_key(|id| *id >> 8);")],
     r'''
fn main() {
    let key = GridKey { phrase_id: 1, lang_set: 1 };
    let mut v = vec![e(1., 1, 3, 3, 7), e(1., 1, 3, 3, 7)];
    v[1].source_phrase_hash = 9;
    let s = GridStore::new(&build("s", vec![(1, 1, v)], vec![])).unwrap();
    let mut got: Vec<_> = s.get(&key).unwrap().unwrap().map(|e| (e.id, e.source_phrase_hash)).collect();
    got.sort();
    assert_eq!(got, [(7, 0), (7, 9)]);
}
''')

seed("list-stops-at-empty", "C08",
     "a key under which an empty list of entries was inserted, with other keys after it, listed with entries",
     "the listing ends before that key",
     [(STO, """        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, value)| {""",
       """        db_iter.take_while(|(key, value)| key[0] == 0 && value.len() > 6).map(|(key, value)| {""")],
     r'''
fn main() {
    let data = vec![(1, 1u128, vec![e(1., 1, 1, 1, 1)]), (2, 1, vec![]), (3, 1, vec![e(1., 1, 3, 3, 3)])];
    let s = GridStore::new(&build("s", data, vec![])).unwrap();
    let got: Vec<_> = s.iter().map(|r| { let (k, v) = r.unwrap(); (k.phrase_id, v.len()) }).collect();
    assert_eq!(got, [(1, 1), (2, 0), (3, 1)]);
}
''')

seed("renumber-one-language", "C09",
     "one phrase with two language sets in a builder that is renumbered",
     "the second language set is taken for a clash and the mapping is rejected",
     [(BLD, "        std::mem::swap(&mut old_data, &mut self.data);\n",
       "        std::mem::swap(&mut old_data, &mut self.data);\n        let mut used = std::collections::HashSet::new();\n"),
      (BLD, "            let new_key = GridKey { phrase_id: *new_phrase_id, ..key };\n",
       """            let new_key = GridKey { phrase_id: *new_phrase_id, ..key };
            if !used.insert(*new_phrase_id) {
                return Err(Error::from(BuildError::DuplicateRenumberEntry {
                    target_id: *new_phrase_id,
                }));
            }
""")],
     r'''
fn main() {
    let path = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("s");
    let mut b = GridStoreBuilder::new(&path).unwrap();
    b.insert(&GridKey { phrase_id: 0, lang_set: 1 }, vec![e(1., 1, 1, 1, 1)]).unwrap();
    b.insert(&GridKey { phrase_id: 0, lang_set: 2 }, vec![e(1., 1, 2, 2, 2)]).unwrap();
    b.renumber(&[5]).unwrap();
    b.finish().unwrap();
    let s = GridStore::new(&path).unwrap();
    assert_eq!(s.keys().map(|k| k.unwrap().phrase_id).collect::<Vec<_>>(), [5, 5]);
}
''')

seed("range-signed", "C10",
     "a range of phrases that starts below 2^31 and ends above it",
     "the bounds are compared as signed numbers, so nothing is found",
     [(COM, "MatchPhrase::Range { start, end } => start <= key_phrase && key_phrase < end,",
       "MatchPhrase::Range { start, end } => {\n                let ahead = key_phrase.wrapping_sub(start) as i32;\n                0 <= ahead && ahead < end.wrapping_sub(start) as i32\n            }")],
     r'''
fn main() {
    let s = GridStore::new(&build("s", vec![(5, 1, vec![e(1., 1, 1, 1, 1)]), (3_000_000_000, 1, vec![e(1., 1, 2, 2, 2)])], vec![])).unwrap();
    let mut found = xys(&query(&s, &range(1, 4_000_000_000, 1), &MatchOpts::default()));
    found.sort();
    assert_eq!(found, [(1, 1), (2, 2)]);
}
''')

seed("bin-past-the-last", "C11",
     "phrases at or above the last bin boundary, and a range that ends at that boundary's successor in the list",
     "the last bin is closed at the last boundary only if a phrase lies on it, so later phrases are put into the bin before",
     [(BLD, "                current_bin = bin_seq.next();\n", """                let next = bin_seq.next();
                // the last boundary only closes the last bin
                if bin_seq.peek().is_some() || next == Some(key.phrase_id) {
                    current_bin = next;
                }
""")],
     r'''
fn main() {
    let data = || vec![(1, 1u128, vec![e(1., 1, 1, 1, 1)]), (12, 1, vec![e(1., 1, 2, 2, 2)])];
    let plain = GridStore::new(&build("plain", data(), vec![])).unwrap();
    let binned = GridStore::new(&build("binned", data(), vec![0, 10])).unwrap();
    let q = |s: &GridStore| xys(&query(s, &range(0, 10, 1), &MatchOpts::default()));
    assert_eq!(q(&plain), q(&binned));
}
''')

seed("box-gap", "C12",
     "a box that is crossed by a Z-order jump, with more than 64 tiles of the key on the stretch outside the box",
     "the scan gives up after 64 tiles outside the box, so what comes after them is not found",
     [(SPA, """    let range = bbox_range(coords, bbox)?;
    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        }
        None""", """    let range = bbox_range(coords, bbox)?;
    let mut since_last = 0;
    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if since_last > 64 {
            // we have left the box
            return None;
        }
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            since_last = 0;
            return Some(coords.get(idx as usize));
        }
        since_last += 1;
        None""")],
     r'''
fn main() {
    let mut v = Vec::new();
    for x in 0..32u16 { for y in 0..32u16 { v.push(e(1., 1, x, y, 1)); } }
    let s = GridStore::new(&build("s", vec![(1, 1, v)], vec![])).unwrap();
    let found = query(&s, &range(0, 9, 1), &MatchOpts { bbox: Some([0, 15, 0, 16]), ..MatchOpts::default() });
    assert_eq!(found.len(), 2);
}
''')

seed("cap-keeps-language", "C14",
     "more keys than the cap, of which some match the languages of the query and rank lower than ones that do not",
     "a key that matches is never dropped for one that does not, although its relevance is worse",
     [(STO, "                    if worst_entry >= &queue_element {", """                    if worst_entry >= &queue_element
                        || (worst_entry.next_entry.matches_language
                            && !queue_element.next_entry.matches_language)
                    {""")],
     r'''
fn main() {
    let data = vec![(1, 1, vec![e(0.6, 1, 1, 1, 1)]), (2, 1, vec![e(0.6, 2, 2, 2, 2)]), (3, 2, vec![e(1., 7, 3, 3, 3)])];
    let s = GridStore::new(&build("s", data, vec![])).unwrap();
    let found: Vec<_> = s.streaming_get_matching(&range(0, 9, 1), &MatchOpts::default(), 2).unwrap().take(1).map(|m| m.grid_entry.id).collect();
    assert_eq!(found, [3]);
}
''')

seed("sixteen-levels", "C16",
     "a box at zoom 16 in the right or lower half of the world, taken to zoom 0",
     "it is taken fifteen levels up instead of sixteen, to a tile that zoom 0 does not have",
     [(SPA, "        let zoom_levels = source_z - target_z;\n", "        let zoom_levels = (source_z - target_z).min(15); // coordinates have 16 bits\n")],
     r'''
fn main() {
    let opts = MatchOpts { bbox: Some([40_000, 5, 50_000, 60_000]), zoom: 16, ..MatchOpts::default() };
    assert_eq!(opts.adjust_to_zoom(0).bbox, Some([0, 0, 0, 0]));
    assert_eq!(opts.adjust_to_zoom(1).bbox, Some([1, 0, 1, 1]));
}
''')

seed("nearby-keeps-box", "C17",
     "a box that lies wholly within 25 miles of the point on one axis but not on the other",
     "the box is left as it was instead of being cut to the 25 miles",
     [(COM, "        if let Some(old_box) = constrained.bbox {\n", """        if let Some(old_box) = constrained.bbox {
            if old_box[0] >= new_box[0] && old_box[2] <= new_box[2] {
                return constrained;
            }
""")],
     r'''
fn main() {
    let opts = MatchOpts { bbox: Some([98, 0, 102, 9000]), proximity: Some([100, 100]), zoom: 14 };
    assert_eq!(opts.with_nearby_only().bbox, Some([98, 83, 102, 117]));
}
''')

seed("tmp-id-23", "C19",
     "features with ids of 2^23 and above in one index and of the difference in the next",
     "the two features are given one temporary id, and one of them is dropped as a duplicate",
     [(COA, "tmp_id: ((subquery.idx as u32) << 25) + grid.grid_entry.id,", "tmp_id: ((subquery.idx as u32) << 23) + grid.grid_entry.id,")],
     r'''
fn main() {
    let a = open(&build("a", vec![(1, 1, vec![e(1., 1, 1, 1, (1 << 23) + 5)])], vec![]), 6, 0, 0.);
    let b = open(&build("b", vec![(1, 1, vec![e(1., 1, 9, 9, 5)])], vec![]), 6, 1, 0.);
    let k = || range(1, 2, 1);
    let out = coalesce(vec![sub(&a, 0, 1, 0.5, 0, k()), sub(&b, 1, 2, 0.5, 1, k())], &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!(out.len(), 2, "{:?}", out);
}
''')

seed("one-tile-per-column", "C21",
     "one feature on two tiles of the same column, of which only the one that comes later nests in the coarser grid",
     "the later tile is dropped as a duplicate, and the stack is lost",
     [(COA, """                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))""", """                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.id,
                            ))""")],
     r'''
fn main() {
    let a = open(&build("a", vec![(1, 1, vec![e(1., 1, 3, 3, 1)])], vec![]), 6, 0, 0.);
    let b = open(&build("b", vec![(1, 1, vec![e(1., 7, 3, 9, 2), e(1., 1, 3, 3, 2)])], vec![]), 6, 1, 0.);
    let pms = vec![sub(&a, 0, 2, 0.5, 0, range(1, 2, 1)), sub(&b, 1, 1, 0.5, 1, range(1, 2, 1))];
    let out = stack_and_coalesce(&pms, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!(out[0].entries.len(), 2, "{:?}", out);
}
''')

seed("contexts-cut-at-forty", "C21",
     "more than forty contexts in all, from several steps",
     "the best forty contexts are kept instead of the best eight hundred, so the others are lost",
     [(COA, "        ConstrainedPriorityQueue::new(MAX_CONTEXTS * 20);", "        ConstrainedPriorityQueue::new(MAX_CONTEXTS);")],
     r'''
fn main() {
    let a = open(&build("a", (0..50).map(|i| (2 * i, 1, vec![e(1., 1, 3, 3, i + 10)])).collect(), vec![]), 6, 0, 0.);
    let b = open(&build("b", vec![(1, 1, vec![e(1., 2, 3, 3, 1), e(1., 1, 3, 3, 2)])], vec![]), 6, 1, 0.);
    let mut pms: Vec<_> = (0..50).map(|i| sub(&a, 0, 2, 0.5 - i as f64 / 1000., i, range(2 * i, 2 * i + 1, 1))).collect();
    pms.push(sub(&b, 1, 1, 0.5, 99, range(1, 2, 1)));
    let out = stack_and_coalesce(&pms, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!(out.iter().filter(|c| c.entries.len() == 2).count(), 100);
}
''')

seed("radius-of-first-store", "C24",
     "two readers of the same zoom with different radii, queried one after the other by one thread",
     "the radius in tiles is remembered by zoom, so the second reader is given the first one's",
     [(SPA, "#[inline]\npub fn proximity_radius(zoom: u16, radius: f64) -> f64 {", """thread_local! {
    static LAST_RADIUS: std::cell::Cell<Option<(u16, f64)>> = std::cell::Cell::new(None);
}

pub fn proximity_radius(zoom: u16, radius: f64) -> f64 {
    // most requests stay at one zoom for a long time
    LAST_RADIUS.with(|last| match last.get() {
        Some((z, tiles)) if z == zoom => tiles,
        _ => {
            let tiles = radius_in_tiles(zoom, radius);
            last.set(Some((zoom, tiles)));
            tiles
        }
    })
}

fn radius_in_tiles(zoom: u16, radius: f64) -> f64 {""")],
     r'''
fn main() {
    let p = build("s", vec![(1, 2, vec![e(1., 1, 30, 10, 1)])], vec![]);
    let (near, far) = (open(&p, 14, 0, 5.), open(&p, 14, 0, 500.));
    let opts = MatchOpts { proximity: Some([10, 10]), zoom: 14, ..MatchOpts::default() };
    let relev = |s: &GridStore| query(s, &range(0, 9, 1), &opts)[0].grid_entry.relev;
    assert_eq!((relev(&near), relev(&far), relev(&near)), (0.96, 1., 0.96));
}
''')

seed("queue-counts-popped", "C26",
     "a queue that was full, from which the best was popped, and another push",
     "the limit counts popped elements too, so the queue takes nothing although it has room",
     [(COM, """        if self.heap.len() >= self.max_size {
            if let Some(min)""", """        if self.heap.len() + self.popped >= self.max_size {
            if let Some(min)"""),
      (COM, """    pub max_size: usize,
    heap: MinMaxHeap<T>,""", """    pub max_size: usize,
    heap: MinMaxHeap<T>,
    popped: usize,"""),
      (COM, "ConstrainedPriorityQueue { max_size, heap: MinMaxHeap::new() }", "ConstrainedPriorityQueue { max_size, heap: MinMaxHeap::new(), popped: 0 }"),
      (COM, """    pub fn pop_max(&mut self) -> Option<T> {
        self.heap.pop_max()""", """    pub fn pop_max(&mut self) -> Option<T> {
        self.popped += self.heap.len().min(1);
        self.heap.pop_max()""")],
     r'''
fn main() {
    let mut q = ConstrainedPriorityQueue::new(2);
    q.push(5);
    q.push(4);
    q.pop_max();
    assert!(q.push(1));
    assert_eq!(q.into_vec_desc(), [4, 1]);
}
''')

seed("nearby-not-written", "C27",
     "a match key that is written when it is restricted to nearby and read back",
     "the field is left out when writing, so it reads back as not restricted",
     [(COM, """    #[serde(default)]
    pub nearby_only: bool,""", """    #[serde(default, skip_serializing)]
    pub nearby_only: bool,""")],
     r'''
fn main() {
    let k = MatchKeyWithId { nearby_only: true, ..MatchKeyWithId::default() };
    let back: MatchKeyWithId = serde_json::from_str(&serde_json::to_string(&k).unwrap()).unwrap();
    assert!(back.nearby_only);
}
''')

# ---- one more for the properties that had few

seed("insert-keeps-groups", "C07",
     "a second insert() under one key whose entries have other relevances or scores than those already there",
     "only the groups of the same relevance and score are replaced, the others stay",
     [(BLD, """        self.data.insert(key.to_owned(), to_insert);
""", """        self.data.entry(key.to_owned()).or_insert_with(BuilderEntry::new).extend(to_insert);
""")],
     r'''
fn main() {
    let path = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("s");
    let mut b = GridStoreBuilder::new(&path).unwrap();
    let key = GridKey { phrase_id: 1, lang_set: 1 };
    b.insert(&key, vec![e(1., 1, 1, 1, 1), e(1., 2, 2, 2, 2)]).unwrap();
    b.insert(&key, vec![e(1., 2, 3, 3, 3)]).unwrap();
    b.finish().unwrap();
    let s = GridStore::new(&path).unwrap();
    assert_eq!(s.get(&key).unwrap().unwrap().map(|e| e.id).collect::<Vec<_>>(), [3]);
}
''')

seed("empty-key-forgotten", "C08",
     "a key that is given no entries, or whose entries are replaced by none",
     "it is left out of the store, so listings lack it",
     [(BLD, """        // figure out the key
                db_key.clear();""", """        if value.is_empty() {
                    continue;
                }
                // figure out the key
                db_key.clear();""")],
     r'''
fn main() {
    let s = GridStore::new(&build("s", vec![(1, 1, vec![e(1., 1, 1, 1, 1)]), (2, 1, vec![]), (3, 1, vec![])], vec![])).unwrap();
    assert_eq!(s.keys().map(|k| k.unwrap().phrase_id).collect::<Vec<_>>(), [1, 2, 3]);
}
''')

seed("box-of-four", "C12",
     "a box of two by two tiles that begins at an even column and an odd row",
     "it is taken for four tiles in a row on the Z-order curve, so everything between its corners is returned",
     [(SPA, """        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        }
        None""", """        if quad || (x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3]) {
            return Some(coords.get(idx as usize));
        }
        None"""),
      (SPA, """    let range = bbox_range(coords, bbox)?;
    Some((range.0..=range.1).filter_map(""", """    let range = bbox_range(coords, bbox)?;
    // four tiles with a common parent are in a row
    let quad = bbox[0] & 1 == 0 && bbox[2] == bbox[0] + 1 && bbox[3] == bbox[1].saturating_add(1);
    Some((range.0..=range.1).filter_map(""")],
     r'''
fn main() {
    let mut v = Vec::new();
    for x in 0..32u16 { for y in 0..32u16 { v.push(e(1., 1, x, y, 1)); } }
    let s = GridStore::new(&build("s", vec![(1, 1, v)], vec![])).unwrap();
    for bbox in [[4, 6, 5, 7], [4, 7, 5, 8], [5, 6, 6, 7], [5, 7, 6, 8]] {
        assert_eq!(query(&s, &range(0, 9, 1), &MatchOpts { bbox: Some(bbox), ..MatchOpts::default() }).len(), 4);
    }
}
''')

seed("z-distance-32-bits", "C13",
     "a tile exactly 2^31 away from the proximity point in Z-order, half the world at zoom 16, and the nearest one on its side",
     "that distance wraps around to less than none, so the tile comes first",
     [(SPA, """    let getter = move |i| coords.get(i as usize);
    let head = (0..prox_mid).rev().map(getter);
    let tail = (prox_mid..len).map(getter);
    let coord_sets = head.into_iter().merge_by(tail.into_iter(), move |a, b| {
        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;
        morton_distance_1.abs() < morton_distance_2.abs()
    });""", """    let getter = move |i| coords.get(i as usize);
    let head = (0..prox_mid).rev().map(getter);
    let tail = (prox_mid..len).map(getter);
    let coord_sets = head.into_iter().merge_by(tail.into_iter(), move |a, b| {
        let morton_distance_1 = (a.coord as i64 - prox_pt) as i32;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i32;
        morton_distance_1.wrapping_abs() < morton_distance_2.wrapping_abs()
    });""")],
     r'''
fn main() {
    let v = vec![e(1., 1, 0, 32768, 1), e(1., 1, 0, 0, 2)];
    let s = GridStore::new(&build("s", vec![(1, 1, v)], vec![])).unwrap();
    let opts = MatchOpts { proximity: Some([0, 0]), zoom: 16, ..MatchOpts::default() };
    let ids: Vec<_> = query(&s, &range(0, 9, 1), &opts).iter().map(|m| m.grid_entry.id).collect();
    assert_eq!(ids, [2, 1]);
}
''')

seed("scores-from-eight", "C15",
     "a stored score of 8 or more and a proximity point",
     "only its low three bits count, so it scores below a 7",
     [(SPA, """    if score > 7 {
        score = 7;
    }
""", """    // there are eight scores
    score &= 7;
""")],
     r'''
fn main() {
    let s = open(&build("s", vec![(1, 1, vec![e(1., 9, 11, 10, 1)])], vec![]), 14, 0, 400.);
    let opts = MatchOpts { proximity: Some([10, 10]), zoom: 14, ..MatchOpts::default() };
    let found = query(&s, &range(0, 9, 1), &opts);
    assert!((found[0].scoredist - 7. * 320.).abs() < 1e-9, "{}", found[0].scoredist);
}
''')

seed("radius-of-zoom-six", "C13",
     "an index of zoom 5 or less, another language, and a distance between the radius there and that at zoom 6",
     "the radius is taken at zoom 6 at least, so the penalty for the language is not taken",
     [(SPA, "    radius * tiles_per_mile_by_zoom(zoom)\n", "    radius * tiles_per_mile_by_zoom(zoom.max(6))\n")],
     r'''
fn main() {
    let s = open(&build("s", vec![(1, 1, vec![e(1., 1, 5, 0, 1)])], vec![]), 3, 0, 400.);
    let opts = MatchOpts { proximity: Some([0, 0]), zoom: 3, ..MatchOpts::default() };
    // 3.7 tiles at zoom 3, 12.5 at zoom 6
    let found = query(&s, &range(0, 9, 2), &opts);
    assert!((found[0].grid_entry.relev - 0.96).abs() < 1e-9, "{}", found[0].grid_entry.relev);
}
''')

seed("prune-next-type", "C20",
     "more than 2000 complete stacks, and a better one of four types whose first part is light",
     "a stack is judged by the best of the next type only, not of all that follow",
     [(STK, "        sum_so_far = sum_so_far + *bin.max_relev;\n", "        sum_so_far = sum_so_far.max(*bin.max_relev);\n")],
     r'''
fn main() {
    let p = build("a", vec![(1, 1, vec![e(1., 1, 1, 1, 1)])], vec![]);
    let stores: Vec<_> = (0..4).map(|t| open(&p, 6, t, 0.)).collect();
    let mut pms = Vec::new();
    // 45 x 46 stacks of 0.5 with masks 1 and 2
    for i in 0..45 {
        pms.push(sub(&stores[0], 0, 1, 0.25, i, range(1, 2, 1)));
    }
    for i in 0..46 {
        pms.push(sub(&stores[1], 1, 2, 0.25, 100 + i, range(1, 2, 1)));
    }
    // and one of 0.125 + 0.375 + 0.375
    pms.push(sub(&stores[1], 1, 4, 0.125, 997, range(1, 2, 1)));
    pms.push(sub(&stores[2], 2, 3, 0.375, 998, range(1, 2, 1)));
    pms.push(sub(&stores[3], 3, 8, 0.375, 999, range(1, 2, 1)));
    let tree = stackable(&pms);
    let found = tree.root.children.iter().filter_map(|i| tree.arena.get(*i)).any(|n| {
        n.mask == 4 && (n.max_relev - 0.875).abs() < 1e-9
    });
    assert!(found);
}
''')

seed("group-nearby-spreads", "C22",
     "phrase matches that share index, weight and mask, of which only the first is restricted to nearby",
     "the restriction applies to the others as well",
     [(COA, "                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);\n",
       """                let nearby_only = grouped_phrasematch.get().match_keys[0].nearby_only;
                grouped_phrasematch.get_mut().match_keys.extend(
                    phrasematch.match_keys.into_iter().map(|key| MatchKeyWithId { nearby_only, ..key }),
                );
""")],
     r'''
fn main() {
    let s = open(&build("s", vec![(1, 1, vec![e(1., 1, 100, 100, 1)]), (2, 1, vec![e(1., 1, 9000, 9000, 2)])], vec![]), 14, 0, 400.);
    let mut pms = vec![sub(&s, 0, 1, 1., 1, range(1, 2, 1)), sub(&s, 0, 1, 1., 2, range(2, 3, 1))];
    pms[0].match_keys[0].nearby_only = true;
    let opts = MatchOpts { proximity: Some([100, 100]), zoom: 14, ..MatchOpts::default() };
    assert_eq!(stack_and_coalesce(&pms, &opts).unwrap().len(), 2);
}
''')

seed("shared-scratch", "C25",
     "two streams of the same thread, both in the middle of a tile with several features",
     "the one advanced later overwrites the list of features the other is reading",
     [(STO, """                    ids.into_iter().map(move |id_comp| {
                        let id = id_comp >> 8;
                        let source_phrase_hash = (id_comp & 255) as u8;
                        MatchEntry {""", """                    // decode the list once, without allocating for each tile
                    let len = IDS.with(|scratch| {
                        let mut scratch = scratch.borrow_mut();
                        scratch.clear();
                        scratch.extend(ids.into_iter());
                        scratch.len()
                    });
                    (0..len).map(move |i| {
                        let id_comp = IDS.with(|scratch| scratch.borrow().get(i).cloned().unwrap_or(0));
                        let id = id_comp >> 8;
                        let source_phrase_hash = (id_comp & 255) as u8;
                        MatchEntry {"""),
      (STO, """struct QueueElement<T""", """thread_local! {
    static IDS: std::cell::RefCell<Vec<u32>> = std::cell::RefCell::new(Vec::new());
}

struct QueueElement<T""")],
     r'''
fn main() {
    let a = GridStore::new(&build("a", vec![(1, 1, (0..9).map(|i| e(1., 1, 5, 5, 10 + i)).collect())], vec![])).unwrap();
    let b = GridStore::new(&build("b", vec![(1, 1, (0..9).map(|i| e(1., 1, 6, 6, 50 + i)).collect())], vec![])).unwrap();
    let (key, opts) = (range(0, 9, 1), MatchOpts::default());
    let mut one = a.streaming_get_matching(&key, &opts, 100).unwrap();
    let mut two = b.streaming_get_matching(&key, &opts, 100).unwrap();
    for i in (0..9).rev() {
        assert_eq!(one.next().unwrap().grid_entry.id, 10 + i);
        assert_eq!(two.next().unwrap().grid_entry.id, 50 + i);
    }
}
''')

seed("group-filled-ahead", "C26",
     "a group of more than 16 elements",
     "more than one element past the group is read, since elements are taken 16 at a time",
     [(COM, """    mut it: T,
    mut key: F,
) -> impl""", """    it: T,
    mut key: F,
) -> impl"""),
      (COM, """    let mut done = false;

    std::iter::from_fn(move || {""", """    let mut done = false;
    // take elements in blocks once there are many of them
    let mut it = it.fuse();
    let mut block: std::collections::VecDeque<T::Item> = std::collections::VecDeque::new();

    std::iter::from_fn(move || {"""),
      (COM, "            let item = it.next();\n", """            if block.is_empty() {
                let n = if running_group.len() < 16 { 1 } else { 16 };
                block.extend(it.by_ref().take(n));
            }
            let item = block.pop_front();
""")],
     r'''
use std::cell::Cell;
fn main() {
    let read = Cell::new(0);
    let list = (0..100).map(|i| {
        read.set(read.get() + 1);
        if i < 40 { 0 } else { i }
    });
    let mut groups = somewhat_eager_groupby(list, |x| *x);
    assert_eq!(groups.next().unwrap().1.len(), 40);
    assert_eq!(read.get(), 41);
}
''')

seed("cut-before-sorting", "C18",
     "more than 40 features",
     "the first 40 to be found are kept, not the best 40",
     [(COA, """fn coalesce_single<T: Borrow<GridStore> + Clone>(
    subquery: &PhrasematchSubquery<T>,
    match_opts: &MatchOpts,
) -> Result<Vec<CoalesceContext>, Error> {
    let bigger_max = 2 * MAX_CONTEXTS;

    let grids = subquery.store.borrow().streaming_get_matching(
        &subquery.match_keys[0].key,
        match_opts,
        bigger_max,
    )?;
""", """fn coalesce_single<T: Borrow<GridStore> + Clone>(
    subquery: &PhrasematchSubquery<T>,
    match_opts: &MatchOpts,
) -> Result<Vec<CoalesceContext>, Error> {
    let bigger_max = MAX_CONTEXTS;

    let grids = subquery.store.borrow().streaming_get_matching(
        &subquery.match_keys[0].key,
        match_opts,
        bigger_max,
    )?;
""")],
     r'''
fn main() {
    // all alike: the last 40 in order of x, y and id are the ones to return, but found in Z-order
    let v: Vec<_> = (0..80u16).map(|i| e(1., 3, i % 10, i / 10, 1 + i as u32)).collect();
    let s = open(&build("s", vec![(1, 1, v)], vec![]), 6, 0, 0.);
    let out = coalesce(vec![sub(&s, 0, 1, 1., 1, range(1, 2, 1))], &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!(out.len(), 40);
    let mut xs: Vec<_> = out.iter().map(|c| c.entries[0].grid_entry.x).collect();
    xs.sort();
    assert_eq!(xs[0], 5);
}
''')

seed("js-one-ending", "C30",
     "several phrases matched in one call with different ending types",
     "all of them are matched with the ending type of the first",
     [(FUZ, "                set.fuzzy_match_multi(phrases.as_slice(), max_word_dist, max_phrase_dist)\n",
       """                let ending_type = phrases.first().map(|(_, ending_type)| *ending_type);
                let phrases: Vec<(Vec<String>, EndingType)> = phrases
                    .into_iter()
                    .map(|(phrase, own)| (phrase, ending_type.unwrap_or(own)))
                    .collect();
                set.fuzzy_match_multi(phrases.as_slice(), max_word_dist, max_phrase_dist)
""")],
     r"""
fn main() {
    let x = exports();
    let f = x.construct("FuzzyPhraseSet", &[dir()]).unwrap();
    let call = |endings: [f64; 2]| {
        fuzzy_phrase::probe::set(Default::default());
        let phrase = |ending: f64| vm::array(vec![vm::array(vec![vm::string("main")]), num(ending)]);
        let phrases = vm::array(vec![phrase(endings[0]), phrase(endings[1])]);
        x.method("FuzzyPhraseSet", f, "fuzzyMatchMulti", &[phrases, num(1.0), num(1.0)]).unwrap();
        fuzzy_phrase::probe::calls()
    };
    assert_ne!(call([0.0, 0.0]), call([0.0, 2.0]));
}
""", kind="native")

seed("js-weight-single", "C29",
     "a weight that is not exact in single precision",
     "it is rounded to single precision, so relevances differ from the engine's",
     [(NAT, "            weight: neon_serde::from_value(cx, weight)?,\n", "            weight: neon_serde::from_value::<_, f32>(cx, weight)? as f64,\n")],
     r"""
fn main() {
    let x = exports();
    let b = x.construct("GridStoreBuilder", &[dir()]).unwrap();
    x.method("GridStoreBuilder", b, "insert", &[key(7.0, &[3.0]), vm::array(vec![entry(5.0)])]).unwrap();
    x.method("GridStoreBuilder", b, "finish", &[]).unwrap();
    let g = x.construct("GridStore", &[dir()]).unwrap();
    let phrase = vm::object(vec![("Exact", num(7.0))]);
    let pm = vm::object(vec![
        ("store", g),
        ("weight", num(0.3)),
        ("match_key", vm::object(vec![("match_phrase", phrase), ("lang_set", nums(&[3.0]))])),
        ("idx", num(1.0)),
        ("mask", num(1.0)),
        ("id", num(1.0)),
        ("phrase", vm::string("main st")),
        ("non_overlapping_indexes", vm::array(vec![])),
    ]);
    let opts = vm::object(vec![("zoom", num(6.0))]);
    let seen = std::rc::Rc::new(std::cell::RefCell::new(None));
    let keep = seen.clone();
    let f = vm::function(move |args| {
        *keep.borrow_mut() = Some(args[1]);
        Ok(vm::undefined())
    });
    assert!(x.function("coalesce", &[vm::array(vec![pm]), opts, f]).is_ok());
    vm::run_event_loop();
    let contexts = seen.borrow().expect("called back");
    let relev = vm::get_prop(vm::get_prop(contexts, "0").unwrap(), "relev").unwrap();
    assert!(vm::with(relev, |s| matches!(s, Slot::Num(n) if *n == 0.3)));
}
""", kind="native")

# ---------------------------------------------------------------- C32, C33: what is on disk

GOLDEN = r'''
fn main() {
    // one coordinate with one id, as records have always been stored
    let data: Vec<u8> = vec![
        1, 5, 0, 0, 0, // ids: one, the number 5
        1, 5, 9, 1, 0, 0, 0, // coordinates: one, of 5 bytes: 0x109, its ids at 0
        1, 60, 5, // groups: one, 60, its coordinates at 5
        12, 0, 0, 0, // the groups are at 12
    ];
    let record = read_phrase_record_from(&Reader::new(data.as_slice()));
    let mut found = Vec::new();
    for g in read_var_vec_raw(&data, record.relev_scores).into_iter().take(3) {
        for c in read_uniform_vec_raw(&data, g.coords).into_iter().take(3) {
            let ids: Vec<u32> = read_fixed_vec_raw(&data, c.ids).into_iter().take(3).collect();
            found.push((g.relev_score, c.coord, ids));
        }
    }
    assert_eq!(found, [(60, 0x109, vec![5])]);
}
'''

seed("coords-big-endian", "C32",
     "a record stored before the change",
     "coordinates are written and read highest byte first, so those stored already read back scrambled",
     [(FMT, "buffer.extend_from_slice(&(self.coord as u32).to_le_bytes());", "buffer.extend_from_slice(&(self.coord as u32).to_be_bytes());"),
      (FMT, "let coord = u32::from_le_bytes(buffer[offset.addr..(offset.addr + 4)].try_into().unwrap());", "let coord = u32::from_be_bytes(buffer[offset.addr..(offset.addr + 4)].try_into().unwrap());")],
     GOLDEN, kind="fmt")

seed("root-counted-back", "C32",
     "a record stored before the change",
     "a record's header says how far back its groups are instead of where, on writing and on reading",
     [(FMT, "buffer.extend_from_slice(&(self.relev_scores.addr as u32).to_le_bytes());", "let back = (buffer.len() - self.relev_scores.addr) as u32;\n        buffer.extend_from_slice(&back.to_le_bytes());"),
      (FMT, "        let relev_scores = VarVecOffset::from_fixed_pointer(buffer, offset.addr);\n", "        let back = VarVecOffset::<RelevScore>::from_fixed_pointer(buffer, offset.addr).addr;\n        let relev_scores = VarVecOffset::new(offset.addr - back);\n")],
     GOLDEN, kind="fmt")

seed("pointers-never-three-bytes", "C32",
     "an id list between 64 KiB and 16 MiB into a record",
     "every coordinate that points there takes a byte more than it needs to",
     [(FMT, "            65536..=16777215 => 4 + 3,\n", "")],
     r'''
fn main() {
    let size = |n: usize| {
        let mut w = Writer::new();
        w.write_fixed_vec(&vec![0u32; 20_000]);
        let ids = w.write_fixed_vec(&[1u32]);
        w.write_uniform_vec(&vec![Coord { coord: 1, ids }; n]);
        w.finish().len()
    };
    // a list of two coordinates and one of three differ by one coordinate: 4 bytes and a pointer
    assert_eq!(size(3) - size(2), 4 + 3);
}
''', kind="fmt")

seed("bin-marker-two", "C33",
     "a store with prefix bins built before the change",
     "bins are written and looked up under another marker, so ranges that are bins find nothing in it",
     [(COM, "    PrefixBin = 1,\n", "    PrefixBin = 2,\n")],
     r'''
fn main() {
    let path = build("s", vec![(7, 1, vec![e(1., 1, 2, 3, 4)])], vec![5, 9]);
    let db = rocksdb::DB::open_for_read_only(&rocksdb::Options::default(), &path, false).unwrap();
    let bin = db.get(&[1, 0, 0, 0, 5, 1]).unwrap();
    let own = db.get(&[0, 0, 0, 0, 7, 1]).unwrap();
    assert!(own.is_some() && bin.is_some());
}
''', kind="disk")

seed("languages-always-sixteen-bytes", "C33",
     "a store built before the change, with a key for some languages",
     "keys are written and looked up with all sixteen bytes of their languages, so old ones are not found",
     [(COM, "let iter = lang_set.iter().skip_while(|byte| **byte == 0u8);", "let iter = lang_set.iter();")],
     r'''
fn main() {
    let path = build("s", vec![(7, 0x102, vec![e(1., 1, 2, 3, 4)])], vec![]);
    let db = rocksdb::DB::open_for_read_only(&rocksdb::Options::default(), &path, false).unwrap();
    assert!(db.get(&[0, 0, 0, 0, 7, 1, 2]).unwrap().is_some());
}
''', kind="disk")

seed("bounds-big-endian", "C33",
     "a store with prefix bins built before the change",
     "bin boundaries are written and read highest byte first, so those of old stores are other numbers",
     [(BLD, "encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());", "encoded_boundaries.extend_from_slice(&boundary.to_be_bytes());"),
      (STO, "Some(u32::from_le_bytes(chunk.try_into().unwrap()))", "Some(u32::from_be_bytes(chunk.try_into().unwrap()))")],
     r'''
fn main() {
    let path = build("s", vec![(7, 1, vec![e(1., 1, 2, 3, 4)])], vec![5, 9]);
    {
        let mut o = rocksdb::Options::default();
        o.create_if_missing(true);
        let db = rocksdb::DB::open(&o, &path).unwrap();
        // as stores have always had it
        db.put("~BOUNDS", &[6, 0, 0, 0, 9, 1, 0, 0]).unwrap();
    }
    let mut bins: Vec<u32> = GridStore::new(&path).unwrap().bin_boundaries.into_iter().collect();
    bins.sort();
    assert_eq!(bins, [6, 265]);
}
''', kind="disk")

# ---------------------------------------------------------------- C23: which ones, when a quota runs out

BEST = r'''
fn main() {
    let path = build("s", (0..16).map(|i| (i * 2, 1, vec![e(1., 1, 512, 512, i + 1)])).collect(), vec![]);
    // the point is in the corner of the one store's box, and in none of the other's
    let a = GridStore::new_with_options(&path, 10, 0, 200., vec![[0, 0, 512, 512]], 1.0).unwrap();
    let b = GridStore::new_with_options(&path, 10, 0, 200., vec![[0, 0, 511, 511]], @OTHER@).unwrap();
    let mut pms = Vec::new();
    for i in 0..16 {
        let store = if i % 2 == 0 { &b } else { &a };
        let mut pm = sub(store, 1 + (i % 2) as u16, 1, 0.5, i, range(i * 2, i * 2 + 2, 1));
        pm.match_keys[0].phrase_length = 1;
        pms.push(pm);
    }
    // eight single letters may be looked up
    let opts = MatchOpts { zoom: 10, proximity: @POINT@, ..MatchOpts::default() };
    let found = tree_coalesce(&stackable(&pms), &opts).unwrap();
    let mut ids: Vec<u32> = found.iter().map(|c| c.entries[0].phrasematch_id).collect();
    ids.sort();
    assert_eq!(ids, [1, 3, 5, 7, 9, 11, 13, 15]);
}
'''

seed("point-on-the-box-edge", "C23",
     "more single-letter matches than are looked up, and a point on the last column of a store's box",
     "the box is taken not to have the point, so the matches of another store come first",
     [(COA, "bbox[0] <= prox[0] && bbox[2] >= prox[0]", "bbox[0] <= prox[0] && bbox[2] > prox[0]")],
     BEST.replace("@OTHER@", "2.0").replace("@POINT@", "Some([512, 512])"))

seed("greatest-score-forgotten", "C23",
     "more single-letter matches than are looked up, in stores that differ in their greatest score only",
     "they are looked up in any order, whatever scores their stores can reach",
     [(COA, "            OrderedFloat(subquery.store.borrow().max_score),\n", "            OrderedFloat(-subquery.store.borrow().max_score.min(0.0)),\n")],
     BEST.replace("@OTHER@", "0.5").replace("@POINT@", "None"))

seed("chunk-per-thread", "C24",
     "nine or more matches of which a weak single-word range on a high zoom is passed over, in pools of different sizes",
     "as many steps are taken at once as the pool has threads, so whether the weak one is looked up depends on the pool",
     [(COA, "        let mut step_chunk = Vec::with_capacity(COALESCE_CHUNK_SIZE);\n", "        // no thread should stay idle\n        let chunk_size = COALESCE_CHUNK_SIZE.max(rayon::current_num_threads());\n        let mut step_chunk = Vec::with_capacity(chunk_size);\n"),
      (COA, "        while added_in_this_chunk < COALESCE_CHUNK_SIZE {", "        while added_in_this_chunk < chunk_size {")],
     r'''
fn main() {
    let a = open(&build("a", (0..12).map(|i| (i, 1, vec![e(1., 1, 3, 3, i + 1)])).collect(), vec![]), 6, 0, 0.);
    let b = open(&build("b", vec![(0, 1, vec![e(1., 1, 9, 9, 50)])], vec![]), 14, 1, 0.);
    let mut pms: Vec<_> = (0..10).map(|i| sub(&a, 0, 7, 1., i, range(i, i + 1, 1))).collect();
    pms.push(sub(&b, 1, 1, 0.5, 20, range(0, 2, 1)));
    let found = |threads: usize| {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        pool.install(|| tree_coalesce(&stackable(&pms), &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap().len())
    };
    assert_eq!(found(1), found(16));
}
''')

seed("bounds-by-path", "C31",
     "a store that is built at a path from which another one was opened before and removed",
     "the bin boundaries are remembered by path, so the new store is given those of the old one",
     [(STO, "        let bin_boundaries: HashSet<u32> = match db.get(\"~BOUNDS\")? {", """        lazy_bounds(|known| known.get(&path).cloned()).map_or_else(|| Ok(None), |b| Ok::<_, Error>(Some(b))).and_then(|known| {
            let bin_boundaries: HashSet<u32> = match known {
                Some(known) => known,
                None => GridStore::read_bounds(&db)?,
            };
            lazy_bounds(|known| known.insert(path.clone(), bin_boundaries.clone()));
            Ok(GridStore {
                db,
                path: path.clone(),
                bin_boundaries,
                zoom,
                type_id,
                coalesce_radius,
                bboxes,
                max_score,
            })
        })
    }

    fn read_bounds(db: &DB) -> Result<HashSet<u32>, Error> {
        Ok(match db.get("~BOUNDS")? {"""),
      (STO, """            None => HashSet::new(),
        };

        Ok(GridStore {
            db,
            path,
            bin_boundaries,
            zoom,
            type_id,
            coalesce_radius,
            bboxes,
            max_score,
        })
    }
""", """            None => HashSet::new(),
        })
    }
"""),
      (STO, "impl GridStore {\n", """/// The boundaries of stores that were opened before: the same ones are opened again and again.
fn lazy_bounds<R>(f: impl FnOnce(&mut std::collections::HashMap<PathBuf, HashSet<u32>>) -> R) -> R {
    thread_local! {
        static KNOWN: std::cell::RefCell<std::collections::HashMap<PathBuf, HashSet<u32>>> = Default::default();
    }
    KNOWN.with(|known| f(&mut known.borrow_mut()))
}

impl GridStore {
""")],
     r'''
fn main() {
    let p = build("s", vec![(1, 1, vec![e(1., 1, 1, 1, 1)]), (5, 1, vec![e(1., 1, 1, 1, 2)])], vec![0, 4, 8]);
    assert_eq!(query(&open(&p, 6, 0, 0.), &range(0, 8, 1), &MatchOpts::default()).len(), 2);
    std::fs::remove_dir_all(&p).unwrap();
    let mut b = GridStoreBuilder::new(&p).unwrap();
    b.insert(&GridKey { phrase_id: 3, lang_set: 1 }, vec![e(1., 1, 1, 1, 3)]).unwrap();
    b.finish().unwrap();
    assert_eq!(query(&open(&p, 6, 0, 0.), &range(0, 8, 1), &MatchOpts::default()).len(), 1);
}
''')

seed("no-language-matches-none", "C10",
     "a key for no language and a query for no language",
     "the two count as matching, so the entries keep their full relevance",
     [(COM, "        Ok(self.lang_set & key_lang_set != 0)", "        Ok(self.lang_set == key_lang_set || self.lang_set & key_lang_set != 0)")],
     r'''
fn main() {
    let s = open(&build("s", vec![(1, 0, vec![e(1., 1, 1, 1, 1)])], vec![]), 6, 0, 0.);
    let found = query(&s, &range(0, 9, 0), &MatchOpts::default());
    assert!(!found[0].matches_language && found[0].grid_entry.relev == 0.96);
}
''')

seed("cap-compares-relevance", "C14",
     "more keys than the cap, of one relevance, with the best score in one that comes late",
     "keys are only exchanged for more relevant ones, so the best scored entry is dropped",
     [(STO, "                    if worst_entry >= &queue_element {", "                    if worst_entry.next_entry.grid_entry.relev\n                        >= queue_element.next_entry.grid_entry.relev\n                    {")],
     r'''
fn main() {
    let s = open(&build("s", (1..5).map(|i| (i, 1, vec![e(1., i as u8, 1, 1, i)])).collect(), vec![]), 6, 0, 0.);
    let found: Vec<_> = s.streaming_get_matching(&range(0, 9, 1), &MatchOpts::default(), 2).unwrap().take(2).map(|m| m.grid_entry.id).collect();
    assert_eq!(found, [4, 3]);
}
''')

seed("no-place-keeps-zoom", "C16",
     "options without a box and without a point, taken to another zoom",
     "they are returned as they are, with the old zoom",
     [(COM, "        if self.zoom == target_z {", "        if self.zoom == target_z || (self.bbox.is_none() && self.proximity.is_none()) {")],
     r'''
fn main() {
    let o = MatchOpts { zoom: 14, ..MatchOpts::default() };
    assert_eq!(o.adjust_to_zoom(6).zoom, 6);
}
''')

# ---------------------------------------------------------------- several records at once

seed("header-by-address", "C03",
     "two coordinate lists of different lengths read one after the other from the same address, as when a buffer is reused",
     "the header of the list last opened is kept by its address, and taken for that of another list that lies there later",
     [(FMT, """        let (len, len_len) = u32::decode_var(&data[(offset.addr as usize)..]);
        let rec_size = data[offset.addr + len_len] as usize;
        let start = (offset.addr + len_len + 1) as usize;
        UniformVec {""", """        thread_local! {
            // lists are mostly opened several times in a row
            static LAST: std::cell::Cell<(usize, u32, usize, usize)> =
                std::cell::Cell::new((0, 0, 0, 0));
        }
        let here = &data[offset.addr..];
        let (at, len, len_len, rec_size) = match LAST.with(|l| l.get()) {
            last if last.0 == here.as_ptr() as usize => last,
            _ => {
                let (len, len_len) = u32::decode_var(here);
                (here.as_ptr() as usize, len, len_len, here[len_len] as usize)
            }
        };
        LAST.with(|l| l.set((at, len, len_len, rec_size)));
        let start = (offset.addr + len_len + 1) as usize;
        UniformVec {""")],
     r"""
fn write(coords: &[u32]) -> (Vec<u8>, UniformVecOffset<Coord>) {
    let mut w = Writer::new();
    let ids = w.write_fixed_vec(&[7u32]);
    let c: Vec<Coord> = coords.iter().map(|c| Coord { coord: *c, ids }).collect();
    let at = w.write_uniform_vec(&c);
    (w.finish(), at)
}
fn main() {
    let mut place: Vec<u8> = Vec::with_capacity(1000);
    for coords in [&[1u32, 2, 3][..], &[4, 5], &[6]] {
        let (data, at) = write(coords);
        place.clear();
        place.extend_from_slice(&data);
        let got: Vec<u32> = read_uniform_vec_raw(&place, at).into_iter().map(|c| c.coord).collect();
        assert_eq!(got, coords);
    }
}
""", kind="fmt")

seed("lists-of-another-writer", "C01",
     "two records being written at the same time on one thread, the second holding an id list of the first",
     "id lists already written are looked up in a table of the thread, which is emptied when a writer begins, not one of the writer",
     [(FMT, """        Writer { data: Vec::new() }""", """        WRITTEN.with(|w| w.borrow_mut().clear());
        Writer { data: Vec::new() }"""),
      (FMT, """impl Writer {
    pub fn new""", """thread_local! {
    /// lists of fixed-size elements already written, and where
    static WRITTEN: std::cell::RefCell<std::collections::HashMap<Vec<u8>, usize>> =
        std::cell::RefCell::new(std::collections::HashMap::new());
}

impl Writer {
    pub fn new"""),
      (FMT, """        for item in s {
            item.write_fixed_to(&mut self.data);
        }
        FixedVecOffset::new(loc)""", """        for item in s {
            item.write_fixed_to(&mut self.data);
        }
        let list = self.data[loc..].to_vec();
        let at = WRITTEN.with(|w| *w.borrow_mut().entry(list).or_insert(loc));
        if at != loc {
            self.data.truncate(loc);
        }
        FixedVecOffset::new(at)""")],
     r"""
fn main() {
    let (mut v, mut w) = (Writer::new(), Writer::new());
    v.write_fixed_vec(&[1u32, 2]);
    v.write_fixed_vec(&[5u32, 9, 7]);
    w.write_fixed_vec(&[5u32]);
    let ids = w.write_fixed_vec(&[5u32, 9, 7]);
    let coords = w.write_uniform_vec(&[Coord { coord: 8, ids }]);
    let relev_scores = w.write_var_vec(&[RelevScore { relev_score: 3, coords }]);
    w.write_fixed_scalar(PhraseRecord { relev_scores });
    let data = w.finish();
    let rec = read_phrase_record_from(&Reader::new(data.as_slice()));
    let g = read_var_vec_raw(&data, rec.relev_scores).into_iter().next().unwrap();
    let c = read_uniform_vec_raw(&data, g.coords).get(0);
    let ids: Vec<u32> = read_fixed_vec_raw(&data, c.ids).into_iter().collect();
    assert_eq!(ids, [5, 9, 7]);
}
""", kind="fmt")

# ---------------------------------------------------------------- state kept between calls, and rare values

seed("coords-by-address", "C07",
     "two appends of coordinates held in one buffer, refilled in between",
     "the second gets the coordinates of the first, since the codes are kept by the address and length of the list",
     [(BLD, """        for pair in coords {
            let zcoord = interleave_morton(pair.0, pair.1);
            match relevance_score_entry.entry(zcoord) {""", """        // the same tiles are usually appended under many keys, one after another
        let place = (coords.as_ptr() as usize, coords.len());
        let zcoords = LAST_COORDS.with(|last| {
            let mut last = last.borrow_mut();
            if (last.0, last.1.len()) != place {
                *last = (place.0, coords.iter().map(|pair| interleave_morton(pair.0, pair.1)).collect());
            }
            last.1.clone()
        });
        for zcoord in zcoords {
            match relevance_score_entry.entry(zcoord) {"""),
      (BLD, """type BuilderEntry =""", """thread_local! {
    static LAST_COORDS: std::cell::RefCell<(usize, Vec<u32>)> = std::cell::RefCell::new((0, Vec::new()));
}

type BuilderEntry =""")],
     r'''
fn main() {
    let path = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("s");
    let mut b = GridStoreBuilder::new(&path).unwrap();
    let mut tiles = Vec::with_capacity(10);
    for (phrase, tile) in &[(1u32, (4u16, 5u16)), (2, (6, 7))] {
        tiles.clear();
        tiles.push(*tile);
        b.compact_append(&GridKey { phrase_id: *phrase, lang_set: 1 }, 1., 3, 9, 0, &tiles);
    }
    b.finish().unwrap();
    let s = GridStore::new(&path).unwrap();
    for (phrase, tile) in &[(1u32, (4u16, 5u16)), (2, (6, 7))] {
        let got: Vec<_> = s.get(&GridKey { phrase_id: *phrase, lang_set: 1 }).unwrap().unwrap().map(|g| (g.x, g.y)).collect();
        assert_eq!(got, [*tile]);
    }
}
''')

seed("root-is-index-zero", "C20",
     "a match that declares itself incompatible with index 0",
     "it starts no stack, since the root of the tree counts as index 0",
     [(STK, """        0,
        129,
        0.0,""", """        0,
        0,
        0.0,""")],
     r'''
fn main() {
    let s = open(&build("s", vec![(1, 1, vec![e(1., 1, 1, 1, 1)])], vec![]), 6, 0, 0.);
    let mut pms = vec![sub(&s, 5, 1, 1., 1, range(1, 2, 1))];
    pms[0].non_overlapping_indexes.insert(0);
    assert_eq!(stackable(&pms).root.children.len(), 1);
}
''')

seed("overlaps-below-64", "C27",
     "a phrase match that declares itself incompatible with an index of 64 or above",
     "that index is missing from what is written",
     [(COM, "    serializer.collect_seq(bits.ones())\n", "    serializer.collect_seq((0..bits.len().min(64)).filter(|index| bits.contains(*index)))\n")],
     r'''
fn main() {
    let s = open(&build("s", vec![(1, 1, vec![e(1., 1, 1, 1, 1)])], vec![]), 6, 0, 0.);
    let mut pm = sub(&s, 5, 1, 1., 1, range(1, 2, 1));
    pm.non_overlapping_indexes.insert(3);
    pm.non_overlapping_indexes.insert(70);
    let text = serde_json::to_string(&pm).unwrap();
    assert!(text.contains("\"non_overlapping_indexes\":[3,70]"), "{}", text);
}
''')

seed("js-nearby-sticks", "C29",
     "a phrase match restricted to nearby followed by one that does not say",
     "the second is restricted as well",
     [(NAT, """        Vec::with_capacity(js_phrase_subq_array.len() as usize);
    for i in 0..js_phrase_subq_array.len() {""", """        Vec::with_capacity(js_phrase_subq_array.len() as usize);
    let mut nearby_only = false;
    for i in 0..js_phrase_subq_array.len() {"""),
      (NAT, """        let nearby_only: bool = if let Ok(_) = js_nearby_only.downcast::<JsUndefined>() {
            false
        } else {
            js_nearby_only.downcast::<JsBoolean>().or_throw(cx)?.value()
        };""", """        if js_nearby_only.downcast::<JsUndefined>().is_err() {
            nearby_only = js_nearby_only.downcast::<JsBoolean>().or_throw(cx)?.value();
        }""")],
     r"""
fn main() {
    let x = exports();
    let b = x.construct("GridStoreBuilder", &[dir()]).unwrap();
    x.method("GridStoreBuilder", b, "insert", &[key(7.0, &[3.0]), vm::array(vec![entry(5.0)])]).unwrap();
    x.method("GridStoreBuilder", b, "finish", &[]).unwrap();
    let g = x.construct("GridStore", &[dir(), vm::object(vec![
        ("zoom", num(14.0)), ("type_id", num(0.0)), ("coalesce_radius", num(100.0)),
        ("bboxes", vm::array(vec![nums(&[0.0, 0.0, 16383.0, 16383.0])])), ("max_score", num(1.0)),
    ])]).unwrap();
    let pm = |id: f64, nearby: bool| {
        let phrase = vm::object(vec![("Exact", num(if nearby { 8.0 } else { 7.0 }))]);
        let mut parts = vec![
            ("store", g),
            ("weight", num(1.0)),
            ("match_key", vm::object(vec![("match_phrase", phrase), ("lang_set", nums(&[3.0]))])),
            ("idx", num(1.0)),
            ("mask", num(1.0)),
            ("id", num(id)),
            ("phrase", vm::string("main st")),
            ("non_overlapping_indexes", vm::array(vec![])),
        ];
        if nearby {
            parts.push(("nearby_only", vm::boolean(true)));
        }
        vm::object(parts)
    };
    let opts = vm::object(vec![("zoom", num(14.0)), ("proximity", nums(&[16000.0, 16000.0]))]);
    let seen = std::rc::Rc::new(std::cell::RefCell::new(None));
    let keep = seen.clone();
    let f = vm::function(move |args| {
        *keep.borrow_mut() = Some(args[1]);
        Ok(vm::undefined())
    });
    assert!(x.function("stackAndCoalesce", &[vm::array(vec![pm(1.0, true), pm(2.0, false)]), opts, f]).is_ok());
    vm::run_event_loop();
    let contexts = seen.borrow().expect("called back");
    let relev = vm::get_prop(vm::get_prop(contexts, "0").unwrap(), "relev").unwrap();
    assert!(vm::with(relev, |s| matches!(s, Slot::Num(_))));
}
""", kind="native")

seed("js-last-bin-single", "C30",
     "an index whose last prefix bin holds a single phrase",
     "the end of that bin is missing from the boundaries",
     [(FUZ, "                        bare_ids.push(bin.last.value() as u32 + 1);\n",
       """                        if bin.last.value() > bin.first.value() {
                            bare_ids.push(bin.last.value() as u32 + 1);
                        }
""")],
     r"""
fn main() {
    let x = exports();
    let f = x.construct("FuzzyPhraseSet", &[dir()]).unwrap();
    fuzzy_phrase::probe::set(fuzzy_phrase::probe::Reply { bins: vec![(3, 9), (10, 10)], ..Default::default() });
    let bins = x.method("FuzzyPhraseSet", f, "getPrefixBins", &[num(100.0)]).unwrap();
    vm::with(bins, |s| match s {
        Slot::Buffer(words, bytes) => {
            assert_eq!(*bytes, 12);
            assert_eq!(words[..3], [3, 10, 11]);
        }
        _ => panic!("no buffer"),
    });
}
""", kind="native")

seed("queue-of-1024", "C10",
     "a range of more than 1,024 phrases, and a cap that allows for more",
     "the queue of keys holds at most 1,024, so the results of the keys that begin worst are not found",
     [(STO, "                if pri_queue.len() >= max_values {", "                if pri_queue.len() >= max_values.min(1024) {")],
     r'''
fn main() {
    let data = (0..1100u32).map(|p| (p, 1, vec![e(if p < 1090 { 1. } else { 0.4 }, 1, 1, 1, p)])).collect();
    let s = GridStore::new(&build("s", data, vec![])).unwrap();
    let found = query(&s, &range(0, 1100, 1), &MatchOpts::default());
    assert_eq!(found.len(), 1100);
}
''')

seed("bin-tile-of-256", "C11",
     "more than 256 phrases of a bin with features on one tile, of one relevance and score",
     "the list of a tile in the record of a bin takes no more once it holds 256, so the rest is missing from queries over the bin",
     [(BLD, "            zcoord_entry.extend(values.iter().cloned());", """            if zcoord_entry.len() < 256 {
                zcoord_entry.extend(values.iter().cloned());
            }""")],
     r'''
fn main() {
    let data = (0..300u32).map(|p| (p, 1, vec![e(1., 1, 1, 1, p)])).collect();
    let s = GridStore::new(&build("s", data, vec![0, 300])).unwrap();
    let found = query(&s, &range(0, 300, 1), &MatchOpts::default());
    assert_eq!(found.len(), 300);
}
''')
