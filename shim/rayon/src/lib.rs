//! Parallel iterators with rayon's names and bounds, evaluated one item after the other.  rayon only
//! takes `Fn + Sync + Send` closures, so what differs between schedules is the order in which
//! independent items are evaluated; here they are evaluated from the last to the first.
pub mod iter {
    pub use crate::prelude::*;
}
pub struct Par<'a, T>(Vec<Box<dyn FnOnce() -> T + 'a>>);
pub mod prelude {
    use super::Par;
    pub trait ParallelIterator: Sized {
        type Item: Send;
        /// the items, each evaluated when it is asked for
        fn thunks<'a>(self) -> Par<'a, Self::Item>
        where
            Self: 'a;
        fn map<F, R>(self, f: F) -> super::Map<Self, F>
        where
            F: Fn(Self::Item) -> R + Sync + Send,
            R: Send,
        {
            super::Map(self, std::rc::Rc::new(f))
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            self.map(f).run();
        }
        fn run(self) -> Vec<Self::Item> {
            let t = self.thunks().0;
            let mut out: Vec<Self::Item> = t.into_iter().rev().map(|f| f()).collect();
            out.reverse();
            out
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.run().into_iter().collect()
        }
        fn flat_map<F, R>(self, f: F) -> super::Ready<R::Item>
        where
            F: Fn(Self::Item) -> R + Sync + Send,
            R: IntoParallelIterator,
        {
            let parts: Vec<Vec<R::Item>> = self.run().into_iter().map(|x| f(x).into_par_iter().run()).collect();
            super::Ready(parts.into_iter().flatten().collect())
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> super::Ready<Self::Item> {
            super::Ready(self.run().into_iter().filter(|x| f(x)).collect())
        }
        fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> super::Ready<R> {
            super::Ready(self.run().into_iter().filter_map(f).collect())
        }
        fn reduce<I, F>(self, identity: I, op: F) -> Self::Item
        where
            I: Fn() -> Self::Item + Sync + Send,
            F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
        {
            self.run().into_iter().fold(identity(), op)
        }
        fn sum<S: Send + std::iter::Sum<Self::Item>>(self) -> S {
            self.run().into_iter().sum()
        }
        fn count(self) -> usize {
            self.run().len()
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.run().into_iter().all(f)
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.run().into_iter().any(f)
        }
        fn cloned<'b, T>(self) -> super::Ready<T>
        where
            T: 'b + Clone + Send + Sync,
            Self: ParallelIterator<Item = &'b T>,
        {
            super::Ready(self.run().into_iter().cloned().collect())
        }
        fn copied<'b, T>(self) -> super::Ready<T>
        where
            T: 'b + Copy + Send + Sync,
            Self: ParallelIterator<Item = &'b T>,
        {
            super::Ready(self.run().into_iter().copied().collect())
        }
        fn unzip<A: Send, B: Send, X: Default + Extend<A>, Y: Default + Extend<B>>(self) -> (X, Y)
        where
            Self: ParallelIterator<Item = (A, B)>,
        {
            self.run().into_iter().unzip()
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn zip<Z: IntoParallelIterator>(self, other: Z) -> super::Zip<Self, Z::Iter> {
            super::Zip(self, other.into_par_iter())
        }
        fn enumerate(self) -> super::Ready<(usize, Self::Item)> {
            super::Ready(self.run().into_iter().enumerate().collect())
        }
        fn rev(self) -> super::Ready<Self::Item> {
            super::Ready(self.run().into_iter().rev().collect())
        }
        fn skip(self, n: usize) -> super::Ready<Self::Item> {
            super::Ready(self.run().into_iter().skip(n).collect())
        }
        fn take(self, n: usize) -> super::Ready<Self::Item> {
            super::Ready(self.run().into_iter().take(n).collect())
        }
        fn step_by(self, n: usize) -> super::Ready<Self::Item> {
            super::Ready(self.run().into_iter().step_by(n).collect())
        }
        fn chunks(self, n: usize) -> super::Ready<Vec<Self::Item>> {
            let mut out = vec![];
            for x in self.run() {
                match out.last_mut() {
                    Some(l) if Vec::len(l) < n => l.push(x),
                    _ => out.push(vec![x]),
                }
            }
            super::Ready(out)
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
        fn len(self) -> usize {
            self.count()
        }
    }
    impl<T: ParallelIterator> IndexedParallelIterator for T {}
    pub trait IntoParallelIterator {
        type Item: Send;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<P: ParallelIterator> IntoParallelIterator for P {
        type Item = P::Item;
        type Iter = P;
        fn into_par_iter(self) -> P {
            self
        }
    }
    impl<T: Send + 'static> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = super::Ready<T>;
        fn into_par_iter(self) -> super::Ready<T> {
            super::Ready(self)
        }
    }
    impl<'b, T: Sync> IntoParallelIterator for &'b Vec<T> {
        type Item = &'b T;
        type Iter = super::Ready<&'b T>;
        fn into_par_iter(self) -> Self::Iter {
            super::Ready(self.iter().collect())
        }
    }
    impl<'b, T: Sync> IntoParallelIterator for &'b [T] {
        type Item = &'b T;
        type Iter = super::Ready<&'b T>;
        fn into_par_iter(self) -> Self::Iter {
            super::Ready(self.iter().collect())
        }
    }
    impl<'b, T: Send> IntoParallelIterator for &'b mut Vec<T> {
        type Item = &'b mut T;
        type Iter = super::Ready<&'b mut T>;
        fn into_par_iter(self) -> Self::Iter {
            super::Ready(self.iter_mut().collect())
        }
    }
    impl<'b, T: Send> IntoParallelIterator for &'b mut [T] {
        type Item = &'b mut T;
        type Iter = super::Ready<&'b mut T>;
        fn into_par_iter(self) -> Self::Iter {
            super::Ready(self.iter_mut().collect())
        }
    }
    macro_rules! ranges {
        ($($t:ty)*) => {$(
            impl IntoParallelIterator for std::ops::Range<$t> {
                type Item = $t;
                type Iter = super::Ready<$t>;
                fn into_par_iter(self) -> super::Ready<$t> {
                    super::Ready(self.collect())
                }
            }
            impl IntoParallelIterator for std::ops::RangeInclusive<$t> {
                type Item = $t;
                type Iter = super::Ready<$t>;
                fn into_par_iter(self) -> super::Ready<$t> {
                    super::Ready(self.collect())
                }
            }
        )*};
    }
    ranges!(usize u64 u32 u16 u8);
    pub trait IntoParallelRefIterator<'b> {
        type Iter: ParallelIterator;
        fn par_iter(&'b self) -> Self::Iter;
    }
    impl<'b, I: 'b + ?Sized> IntoParallelRefIterator<'b> for I
    where
        &'b I: IntoParallelIterator,
    {
        type Iter = <&'b I as IntoParallelIterator>::Iter;
        fn par_iter(&'b self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait IntoParallelRefMutIterator<'b> {
        type Iter: ParallelIterator;
        fn par_iter_mut(&'b mut self) -> Self::Iter;
    }
    impl<'b, I: 'b + ?Sized> IntoParallelRefMutIterator<'b> for I
    where
        &'b mut I: IntoParallelIterator,
    {
        type Iter = <&'b mut I as IntoParallelIterator>::Iter;
        fn par_iter_mut(&'b mut self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait ParallelSlice<T: Sync> {
        fn par_chunks(&self, n: usize) -> super::Ready<&[T]>;
        fn par_windows(&self, n: usize) -> super::Ready<&[T]>;
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> super::Ready<&[T]> {
            super::Ready(self.chunks(n).collect())
        }
        fn par_windows(&self, n: usize) -> super::Ready<&[T]> {
            super::Ready(self.windows(n).collect())
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn par_chunks_mut(&mut self, n: usize) -> super::Ready<&mut [T]>;
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn par_chunks_mut(&mut self, n: usize) -> super::Ready<&mut [T]> {
            super::Ready(self.chunks_mut(n).collect())
        }
    }
}
pub use prelude::{IndexedParallelIterator, ParallelIterator};
/// Items that are there already.
#[derive(Clone)]
pub struct Ready<T>(pub Vec<T>);
impl<T: Send> ParallelIterator for Ready<T> {
    type Item = T;
    fn thunks<'a>(self) -> Par<'a, T>
    where
        Self: 'a,
    {
        Par(self.0.into_iter().map(|x| Box::new(move || x) as Box<dyn FnOnce() -> T + 'a>).collect())
    }
}
pub struct Map<I, F>(I, std::rc::Rc<F>);
impl<I: Clone, F> Clone for Map<I, F> {
    fn clone(&self) -> Self {
        Map(self.0.clone(), self.1.clone())
    }
}
impl<I: ParallelIterator, R: Send, F: Fn(I::Item) -> R + Sync + Send> ParallelIterator for Map<I, F> {
    type Item = R;
    fn thunks<'a>(self) -> Par<'a, R>
    where
        Self: 'a,
    {
        let f = self.1;
        Par(self
            .0
            .thunks()
            .0
            .into_iter()
            .map(|x| {
                let f = f.clone();
                Box::new(move || f(x())) as Box<dyn FnOnce() -> R + 'a>
            })
            .collect())
    }
}
#[derive(Clone)]
pub struct Zip<A, B>(A, B);
impl<A: ParallelIterator, B: ParallelIterator> ParallelIterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn thunks<'a>(self) -> Par<'a, Self::Item>
    where
        Self: 'a,
    {
        let (a, b) = (self.0.thunks().0, self.1.thunks().0);
        Par(a.into_iter().zip(b).map(|(a, b)| Box::new(move || (a(), b())) as Box<dyn FnOnce() -> Self::Item + 'a>).collect())
    }
}
/// Both closures, the second one first.
pub fn join<A: FnOnce() -> X + Send, B: FnOnce() -> Y + Send, X: Send, Y: Send>(a: A, b: B) -> (X, Y) {
    let y = b();
    (a(), y)
}
