//! Stand-in for `static-bushes` (apendleton/static-bushes): a static index of 2-D points that
//! answers exact-point and rectangle queries with the insertion positions of the points found.
//! Here it is a list sorted by (x, y), which makes both answers easy to trust.

#[derive(Debug, Clone)]
pub struct KDBushBuilder<T> {
    points: Vec<(T, T)>,
}

impl<T: Copy + PartialOrd> KDBushBuilder<T> {
    pub fn new() -> Self {
        KDBushBuilder { points: Vec::new() }
    }

    pub fn with_capacity(n: usize) -> Self {
        KDBushBuilder { points: Vec::with_capacity(n) }
    }

    pub fn add(&mut self, point: &[T; 2]) -> usize {
        self.points.push((point[0], point[1]));
        self.points.len() - 1
    }

    pub fn finish(self) -> KDBush<T> {
        let mut points: Vec<(T, T, usize)> =
            self.points.into_iter().enumerate().map(|(i, (x, y))| (x, y, i)).collect();
        points.sort_by(|a, b| a.partial_cmp(b).expect("comparable points"));
        KDBush { points }
    }
}

impl<T: Copy + PartialOrd> Default for KDBushBuilder<T> {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Debug, Clone)]
pub struct KDBush<T> {
    points: Vec<(T, T, usize)>,
}

impl<T: Copy + PartialOrd> KDBush<T> {
    fn lower(&self, below: impl Fn(&(T, T, usize)) -> bool) -> usize {
        let (mut lo, mut hi) = (0, self.points.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            if below(&self.points[mid]) {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        lo
    }

    pub fn len(&self) -> usize {
        self.points.len()
    }

    pub fn is_empty(&self) -> bool {
        self.points.is_empty()
    }

    /// Positions of every point equal to (x, y).
    pub fn search_exact<'a>(&'a self, x: T, y: T) -> impl Iterator<Item = usize> + 'a
    where
        T: 'a,
    {
        let from = self.lower(|p| p.0 < x || (p.0 == x && p.1 < y));
        self.points[from..].iter().take_while(move |p| p.0 == x && p.1 == y).map(|p| p.2)
    }

    pub fn exact_as_vec(&self, x: T, y: T) -> Vec<usize> {
        self.search_exact(x, y).collect()
    }

    /// Positions of every point inside the rectangle, borders included.
    pub fn search_range<'a>(
        &'a self,
        min_x: T,
        min_y: T,
        max_x: T,
        max_y: T,
    ) -> impl Iterator<Item = usize> + 'a
    where
        T: 'a,
    {
        let from = self.lower(|p| p.0 < min_x);
        self.points[from..]
            .iter()
            .take_while(move |p| p.0 <= max_x)
            .filter(move |p| p.1 >= min_y && p.1 <= max_y)
            .map(|p| p.2)
    }

    pub fn range_as_vec(&self, min_x: T, min_y: T, max_x: T, max_y: T) -> Vec<usize> {
        self.search_range(min_x, min_y, max_x, max_y).collect()
    }
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn queries_agree_with_a_scan() {
        let mut s = 12345u32;
        let mut rnd = |n: u32| {
            s ^= s << 13;
            s ^= s >> 17;
            s ^= s << 5;
            (s % n) as u16
        };
        for _ in 0..500 {
            let pts: Vec<[u16; 2]> = (0..rnd(40)).map(|_| [rnd(8), rnd(8)]).collect();
            let mut b = KDBushBuilder::new();
            for p in &pts {
                b.add(p);
            }
            let bush = b.finish();
            let (x0, y0, x1, y1) = (rnd(9), rnd(9), rnd(9), rnd(9));
            let mut got = bush.exact_as_vec(x0, y0);
            got.sort();
            let want: Vec<usize> =
                (0..pts.len()).filter(|i| pts[*i] == [x0, y0]).collect();
            assert_eq!(got, want);
            let mut got: Vec<usize> = bush.search_range(x0, y0, x1, y1).collect();
            got.sort();
            let want: Vec<usize> = (0..pts.len())
                .filter(|i| {
                    let [x, y] = pts[*i];
                    x >= x0 && x <= x1 && y >= y0 && y <= y1
                })
                .collect();
            assert_eq!(got, want);
        }
    }
}
