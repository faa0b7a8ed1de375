//! Stand-in for `rayon`: one after another.
pub mod prelude {
    pub trait IntoParallelIterator: IntoIterator + Sized {
        fn into_par_iter(self) -> Self::IntoIter {
            self.into_iter()
        }
    }
    impl<T: IntoIterator> IntoParallelIterator for T {}
    pub trait IntoParallelRefIterator<'a> {
        type Iter;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: ?Sized + 'a> IntoParallelRefIterator<'a> for T
    where
        &'a T: IntoIterator,
    {
        type Iter = <&'a T as IntoIterator>::IntoIter;
        fn par_iter(&'a self) -> Self::Iter {
            self.into_iter()
        }
    }
    pub trait ParallelIterator: Iterator + Sized {}
    impl<T: Iterator> ParallelIterator for T {}
    pub trait IndexedParallelIterator: Iterator + Sized {
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
            *v = self.collect();
        }
    }
    impl<T: Iterator> IndexedParallelIterator for T {}
}
pub use prelude as iter;
