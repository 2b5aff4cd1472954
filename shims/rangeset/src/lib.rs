//! Stand-in for `rangeset` 0.4 (not available offline), for `usize`: an ordered list of disjoint, non-adjacent,
//! non-empty ranges.
use serde::{Deserialize, Serialize};
use std::ops::Range;
pub mod prelude {
    pub use crate::{iter::*, ops::*, set::*};
}
pub mod set {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    #[serde(from = "Vec<Range<T>>", into = "Vec<Range<T>>", bound(serialize = "T: Elem + Serialize", deserialize = "T: Elem + Deserialize<'de>"))]
    pub struct RangeSet<T> {
        pub(crate) ranges: Vec<Range<T>>,
    }
    pub trait Elem: Copy + Ord {}
    impl Elem for usize {}
    impl<T> Default for RangeSet<T> {
        fn default() -> Self {
            RangeSet { ranges: vec![] }
        }
    }
    impl<T: PartialEq> PartialEq<Range<T>> for &RangeSet<T> {
        fn eq(&self, o: &Range<T>) -> bool {
            matches!(self.ranges.as_slice(), [r] if r == o)
        }
    }
    impl<T: Elem> From<Vec<Range<T>>> for RangeSet<T> {
        fn from(mut v: Vec<Range<T>>) -> Self {
            v.retain(|r| r.start < r.end);
            v.sort_by_key(|r| r.start);
            let mut o: Vec<Range<T>> = vec![];
            for r in v {
                match o.last_mut() {
                    Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                    _ => o.push(r),
                }
            }
            RangeSet { ranges: o }
        }
    }
    impl<T: Elem> From<RangeSet<T>> for Vec<Range<T>> {
        fn from(v: RangeSet<T>) -> Self {
            v.ranges
        }
    }
    impl<T: Elem, const N: usize> From<[Range<T>; N]> for RangeSet<T> {
        fn from(v: [Range<T>; N]) -> Self {
            v.to_vec().into()
        }
    }
    impl<T: Elem> From<&[Range<T>]> for RangeSet<T> {
        fn from(v: &[Range<T>]) -> Self {
            v.to_vec().into()
        }
    }
    impl<T: Elem> From<Range<T>> for RangeSet<T> {
        fn from(v: Range<T>) -> Self {
            vec![v].into()
        }
    }
    impl RangeSet<usize> {
        pub fn len(&self) -> usize {
            self.ranges.iter().map(|r| r.len()).sum()
        }
        pub fn is_empty(&self) -> bool {
            self.ranges.is_empty()
        }
        pub fn end(&self) -> Option<usize> {
            self.ranges.last().map(|r| r.end)
        }
        pub fn min(&self) -> Option<usize> {
            self.ranges.first().map(|r| r.start)
        }
        pub fn contains(&self, x: &usize) -> bool {
            self.ranges.iter().any(|r| r.contains(x))
        }
        pub fn iter(&self) -> std::vec::IntoIter<Range<usize>> {
            self.ranges.clone().into_iter()
        }
        pub fn iter_values(&self) -> impl Iterator<Item = usize> + '_ {
            self.ranges.iter().cloned().flatten()
        }
        pub fn len_ranges(&self) -> usize {
            self.ranges.len()
        }
        pub fn union_mut<R: crate::ops::Ranges>(&mut self, o: R) {
            let mut v = std::mem::take(&mut self.ranges);
            v.extend(o.rs());
            *self = v.into();
        }
    }
}
pub mod iter {
    use super::set::RangeSet;
    use super::*;
    pub trait RangeIterator<T>: Iterator<Item = Range<T>> + Sized {
        fn into_set(self) -> RangeSet<T>;
    }
    impl<I: Iterator<Item = Range<usize>>> RangeIterator<usize> for I {
        fn into_set(self) -> RangeSet<usize> {
            self.collect::<Vec<_>>().into()
        }
    }
    pub trait IntoRangeIterator<T> {
        fn vx_ranges(self) -> Vec<Range<T>>;
    }
    impl IntoRangeIterator<usize> for Range<usize> {
        fn vx_ranges(self) -> Vec<Range<usize>> {
            vec![self]
        }
    }
    impl IntoRangeIterator<usize> for &Range<usize> {
        fn vx_ranges(self) -> Vec<Range<usize>> {
            vec![self.clone()]
        }
    }
    impl IntoRangeIterator<usize> for RangeSet<usize> {
        fn vx_ranges(self) -> Vec<Range<usize>> {
            self.ranges
        }
    }
    impl IntoRangeIterator<usize> for &RangeSet<usize> {
        fn vx_ranges(self) -> Vec<Range<usize>> {
            self.ranges.clone()
        }
    }
    pub trait FromRangeIterator<T>: Sized {
        fn from_range_iter<I: IntoRangeIterator<T>>(i: I) -> Self;
    }
    impl FromRangeIterator<usize> for RangeSet<usize> {
        fn from_range_iter<I: IntoRangeIterator<usize>>(i: I) -> Self {
            i.vx_ranges().into()
        }
    }
}
pub mod ops {
    use super::set::RangeSet;
    use super::*;
    /// anything that can be read as a set of ranges
    pub trait Ranges {
        fn rs(&self) -> Vec<Range<usize>>;
    }
    impl Ranges for Range<usize> {
        fn rs(&self) -> Vec<Range<usize>> {
            if self.start < self.end { vec![self.clone()] } else { vec![] }
        }
    }
    impl Ranges for RangeSet<usize> {
        fn rs(&self) -> Vec<Range<usize>> {
            self.ranges.clone()
        }
    }
    impl<R: Ranges + ?Sized> Ranges for &R {
        fn rs(&self) -> Vec<Range<usize>> {
            (**self).rs()
        }
    }
    pub trait Set<T>: Ranges {
        fn difference<R: Ranges>(&self, o: R) -> std::vec::IntoIter<Range<usize>> {
            let o = o.rs();
            let mut out = vec![];
            for r in self.rs() {
                let mut s = r.start;
                for q in &o {
                    if q.end <= s || q.start >= r.end {
                        continue;
                    }
                    if q.start > s {
                        out.push(s..q.start);
                    }
                    s = s.max(q.end);
                }
                if s < r.end {
                    out.push(s..r.end);
                }
            }
            out.into_iter()
        }
        fn intersection<R: Ranges>(&self, o: R) -> std::vec::IntoIter<Range<usize>> {
            let mut out = vec![];
            for r in self.rs() {
                for q in o.rs() {
                    let (s, e) = (r.start.max(q.start), r.end.min(q.end));
                    if s < e {
                        out.push(s..e);
                    }
                }
            }
            out.into_iter()
        }
        fn union<R: Ranges>(&self, o: R) -> std::vec::IntoIter<Range<usize>> {
            let mut v = self.rs();
            v.extend(o.rs());
            RangeSet::from(v).ranges.into_iter()
        }
        fn is_subset<R: Ranges>(&self, o: R) -> bool {
            self.difference(o).next().is_none()
        }
        fn is_disjoint<R: Ranges>(&self, o: R) -> bool {
            self.intersection(o).next().is_none()
        }
    }
    impl Set<usize> for Range<usize> {}
    impl Set<usize> for RangeSet<usize> {}
    pub trait Cover {
        fn cover_by<'a, V, I: IntoIterator<Item = &'a V>>(&self, items: I, f: impl Fn(&V) -> &RangeSet<usize>) -> (Vec<&'a V>, RangeSet<usize>);
    }
    impl Cover for RangeSet<usize> {
        /// greedy cover by the items lying inside the set; also returns what stays uncovered
        fn cover_by<'a, V, I: IntoIterator<Item = &'a V>>(&self, items: I, f: impl Fn(&V) -> &RangeSet<usize>) -> (Vec<&'a V>, RangeSet<usize>) {
            let mut c: Vec<&'a V> = items.into_iter().filter(|v| f(v).is_subset(self)).collect();
            let mut left = self.clone();
            let mut out = vec![];
            loop {
                let gain = |v: &V| f(v).intersection(&left).map(|r| r.len()).sum::<usize>();
                let best = (0..c.len()).max_by_key(|i| (gain(c[*i]), usize::MAX - *i));
                match best {
                    Some(i) if gain(c[i]) > 0 => {
                        let v = c.remove(i);
                        left = left.difference(f(v)).collect::<Vec<_>>().into();
                        out.push(v);
                    }
                    _ => return (out, left),
                }
            }
        }
    }
    pub trait Index {
        fn index<'a>(&'a self, idx: &'a RangeSet<usize>) -> Box<dyn Iterator<Item = &'a [u8]> + 'a>;
    }
    impl Index for Vec<u8> {
        fn index<'a>(&'a self, idx: &'a RangeSet<usize>) -> Box<dyn Iterator<Item = &'a [u8]> + 'a> {
            Box::new(idx.ranges.iter().map(move |r| &self[r.clone()]))
        }
    }
    impl Index for [u8] {
        fn index<'a>(&'a self, idx: &'a RangeSet<usize>) -> Box<dyn Iterator<Item = &'a [u8]> + 'a> {
            Box::new(idx.ranges.iter().map(move |r| &self[r.clone()]))
        }
    }
}
