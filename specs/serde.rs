// Contract assumed on crate `serde` (TRUSTED): a serialized struct is the sequence of its fields.
pub mod serde {
use vstd::prelude::*;
use crate::csv::{VpCell, VpRecord};
pub type Rec = Seq<(Seq<char>, Seq<char>)>;
verus! {
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeStruct: ser::SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: core::result::Result<Self::SerializeStruct, Self::Error>)
        ensures r matches Ok(s) ==> <Self::SerializeStruct as ser::SerializeStruct>::fields(&s) == Seq::<(Seq<char>, Seq<char>)>::empty();
}
pub trait Serialize: VpRecord {
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: core::result::Result<S::Ok, S::Error>)
        ensures r matches Ok(o) ==> <S::SerializeStruct as ser::SerializeStruct>::record(&o) == self.vp_rec();
}
pub mod ser {
use vstd::prelude::*;
use crate::csv::VpCell;
pub trait SerializeStruct: Sized {
    type Ok;
    type Error;
    spec fn fields(&self) -> Seq<(Seq<char>, Seq<char>)>;
    spec fn record(o: &Self::Ok) -> Seq<(Seq<char>, Seq<char>)>;
    fn serialize_field<T: VpCell + ?Sized>(&mut self, name: &'static str, value: &T) -> (r: core::result::Result<(), Self::Error>)
        ensures r is Ok ==> final(self).fields() == old(self).fields().push((name@, value.vp_cell()));
    fn end(self) -> (r: core::result::Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> Self::record(&o) == self.fields();
}
}
} // verus!
}
