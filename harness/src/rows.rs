//! Uniform view of query rows and iterators of any shape.
use crate::comps::*;
use xecs::EntityId;
use xecs::query::{QueryIterator, Queryable, WithId};
use xecs::World;

pub trait Row {
    /// The values of the row, left to right.
    fn vals(&self, out: &mut Vec<i64>);
    /// Replace every mutable component of the row, left to right.
    fn put(&mut self, next: &mut dyn FnMut() -> i64);
}
impl<'a, T: Comp> Row for &'a T {
    fn vals(&self, out: &mut Vec<i64>) {
        out.push(self.val())
    }
    fn put(&mut self, _: &mut dyn FnMut() -> i64) {}
}
impl<'a, T: Comp> Row for &'a mut T {
    fn vals(&self, out: &mut Vec<i64>) {
        out.push(self.val())
    }
    fn put(&mut self, next: &mut dyn FnMut() -> i64) {
        **self = T::mk(next());
    }
}
macro_rules! tuple_row {
    ($($n:ident),*) => {
        #[allow(non_snake_case)]
        impl<$($n: Row),*> Row for ($($n,)*) {
            fn vals(&self, out: &mut Vec<i64>) { let ($($n,)*) = self; $($n.vals(out);)* }
            fn put(&mut self, next: &mut dyn FnMut() -> i64) { let ($($n,)*) = self; $($n.put(next);)* }
        }
    };
}
tuple_row!(T1, T2);
tuple_row!(T1, T2, T3);
tuple_row!(T1, T2, T3, T4);
tuple_row!(T1, T2, T3, T4, T5);

pub type BoxRow<'a> = Box<dyn Row + 'a>;
pub trait DynIter<'a> {
    fn next(&mut self) -> Option<BoxRow<'a>>;
    fn next_with_id(&mut self) -> Option<(EntityId, BoxRow<'a>)>;
    fn from_id(&mut self, id: EntityId) -> Option<BoxRow<'a>>;
    fn nth(&mut self, n: usize) -> Option<(Option<EntityId>, BoxRow<'a>)>;
    /// What is left: the number of rows, or the last one.
    fn rest(self: Box<Self>, last: bool) -> (usize, Option<(Option<EntityId>, BoxRow<'a>)>);
    /// What is left, all at once.
    fn all(self: Box<Self>, most: usize) -> Vec<(Option<EntityId>, BoxRow<'a>)>;
    fn hint(&self) -> (usize, Option<usize>);
    fn with_id(self: Box<Self>) -> Box<dyn DynIter<'a> + 'a>;
}
struct It<'a, R>(Box<dyn QueryIterator<Item = R> + 'a>);
impl<'a, R: Row + 'a> DynIter<'a> for It<'a, R> {
    fn next(&mut self) -> Option<BoxRow<'a>> {
        self.0.next().map(|r| Box::new(r) as BoxRow<'a>)
    }
    fn next_with_id(&mut self) -> Option<(EntityId, BoxRow<'a>)> {
        self.0.next_with_id().map(|(i, r)| (i, Box::new(r) as BoxRow<'a>))
    }
    fn from_id(&mut self, id: EntityId) -> Option<BoxRow<'a>> {
        self.0.from_id(id).map(|r| Box::new(r) as BoxRow<'a>)
    }
    fn nth(&mut self, n: usize) -> Option<(Option<EntityId>, BoxRow<'a>)> {
        self.0.nth(n).map(|r| (None, Box::new(r) as BoxRow<'a>))
    }
    fn rest(self: Box<Self>, last: bool) -> (usize, Option<(Option<EntityId>, BoxRow<'a>)>) {
        if last {
            (0, self.0.last().map(|r| (None, Box::new(r) as BoxRow<'a>)))
        } else {
            (self.0.count(), None)
        }
    }
    fn all(self: Box<Self>, most: usize) -> Vec<(Option<EntityId>, BoxRow<'a>)> {
        self.0.fold(vec![], |mut v, r| {
            assert!(v.len() < most, "no end of rows");
            v.push((None, Box::new(r) as BoxRow<'a>));
            v
        })
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn with_id(self: Box<Self>) -> Box<dyn DynIter<'a> + 'a> {
        Box::new(Wi(WithId::with_id(self.0)))
    }
}
/// The `with_id()` adaptor: every row comes with its id.
struct Wi<I>(xecs::query::IdIter<I>);
impl<'a, R: Row + 'a, I: QueryIterator<Item = R> + 'a> DynIter<'a> for Wi<I> {
    fn next(&mut self) -> Option<BoxRow<'a>> {
        self.0.next().map(|(_, r)| Box::new(r) as BoxRow<'a>)
    }
    fn next_with_id(&mut self) -> Option<(EntityId, BoxRow<'a>)> {
        self.0.next().map(|(i, r)| (i, Box::new(r) as BoxRow<'a>))
    }
    fn from_id(&mut self, _: EntityId) -> Option<BoxRow<'a>> {
        panic!("harness: not available through with_id()")
    }
    fn nth(&mut self, n: usize) -> Option<(Option<EntityId>, BoxRow<'a>)> {
        self.0.nth(n).map(|(i, r)| (Some(i), Box::new(r) as BoxRow<'a>))
    }
    fn rest(self: Box<Self>, last: bool) -> (usize, Option<(Option<EntityId>, BoxRow<'a>)>) {
        if last {
            (0, self.0.last().map(|(i, r)| (Some(i), Box::new(r) as BoxRow<'a>)))
        } else {
            (self.0.count(), None)
        }
    }
    fn all(self: Box<Self>, most: usize) -> Vec<(Option<EntityId>, BoxRow<'a>)> {
        self.0.fold(vec![], |mut v, (i, r)| {
            assert!(v.len() < most, "no end of rows");
            v.push((Some(i), Box::new(r) as BoxRow<'a>));
            v
        })
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn with_id(self: Box<Self>) -> Box<dyn DynIter<'a> + 'a> {
        self
    }
}
pub fn mk<'a, T: Queryable<'a> + 'a>(w: &'a World) -> Box<dyn DynIter<'a> + 'a>
where
    T::Item: Row + 'a,
{
    Box::new(It(w.query::<T>()))
}
