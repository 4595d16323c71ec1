//! Stand-in for `rayon`: parallel iterators run in order, on one thread.
//@ deps:
pub mod iter {
    pub struct Seq<I>(I);
    pub trait IntoParallelIterator { type Item; type Iter: Iterator<Item = Self::Item>; fn into_par_iter(self) -> Seq<Self::Iter>; }
    impl<T: IntoIterator> IntoParallelIterator for T { type Item = T::Item; type Iter = T::IntoIter; fn into_par_iter(self) -> Seq<T::IntoIter> { Seq(self.into_iter()) } }
    pub trait IntoParallelRefIterator<'a> { type Item: 'a; type Iter: Iterator<Item = Self::Item>; fn par_iter(&'a self) -> Seq<Self::Iter>; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator { type Item = <&'a T as IntoIterator>::Item; type Iter = <&'a T as IntoIterator>::IntoIter; fn par_iter(&'a self) -> Seq<Self::Iter> { Seq(self.into_iter()) } }
    pub trait ParallelIterator: Sized {
        type Item; type In: Iterator<Item = Self::Item>;
        fn seq(self) -> Self::In;
        fn for_each<F: Fn(Self::Item)>(self, f: F) { self.seq().for_each(f) }
        fn map<R, F: FnMut(Self::Item) -> R>(self, f: F) -> Seq<std::iter::Map<Self::In, F>> { Seq(self.seq().map(f)) }
        fn filter<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Seq<std::iter::Filter<Self::In, F>> { Seq(self.seq().filter(f)) }
        fn enumerate(self) -> Seq<std::iter::Enumerate<Self::In>> { Seq(self.seq().enumerate()) }
        fn all<F: FnMut(Self::Item) -> bool>(self, f: F) -> bool { self.seq().all(f) }
        fn any<F: FnMut(Self::Item) -> bool>(self, f: F) -> bool { self.seq().any(f) }
        fn count(self) -> usize { self.seq().count() }
        fn collect<C: std::iter::FromIterator<Self::Item>>(self) -> C { self.seq().collect() }
    }
    impl<I: Iterator> ParallelIterator for Seq<I> { type Item = I::Item; type In = I; fn seq(self) -> I { self.0 } }
}
pub mod prelude { pub use crate::iter::*; }
