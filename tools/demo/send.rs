mod poly;
use std::marker::PhantomData;
// what was prepared may be handed to other threads
struct W<T>(PhantomData<T>);
trait No {
    fn both(&self) -> bool {
        false
    }
}
impl<T> No for &W<T> {}
trait Yes {
    fn both(&self) -> bool;
}
impl<T: Send + Sync> Yes for W<T> {
    fn both(&self) -> bool {
        true
    }
}
fn main() {
    assert!((&W::<poly2tri_rs::CDT<Vec<poly2tri_rs::Point>>>(PhantomData)).both(), "CDT");
    assert!((&W::<poly2tri_rs::Builder<Vec<poly2tri_rs::Point>>>(PhantomData)).both(), "Builder");
}
