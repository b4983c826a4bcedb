pub mod prelude {
    pub trait ParIter<'a> { type It: Iterator; fn par_iter(&'a self) -> Self::It; }
    impl<'a, T: 'a> ParIter<'a> for Vec<T> { type It = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::It { self.iter() } }
    impl<'a, T: 'a> ParIter<'a> for [T] { type It = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::It { self.iter() } }
    impl<'a, T: 'a, const N: usize> ParIter<'a> for [T; N] { type It = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::It { self.iter() } }
    pub trait IntoParIter { type It: Iterator; fn into_par_iter(self) -> Self::It; }
    impl<I: IntoIterator> IntoParIter for I { type It = I::IntoIter; fn into_par_iter(self) -> Self::It { self.into_iter() } }
}
