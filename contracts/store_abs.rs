// ---------------------------------------------------------------- storage types as the layers above see them: their memory is
// uninterpreted here; contracts/store_def.rs defines it, and the storage functions are proved against that definition
#[verifier::external_body] pub struct NumericData { x: u8 }
impl NumericData { pub uninterp spec fn buf(&self) -> Seq<i16>; pub uninterp spec fn off(&self) -> int; pub uninterp spec fn wf(&self) -> bool; }
#[verifier::external_body] pub struct Numeric { x: u8 }
#[verifier::external_body] pub struct NumericBuf { x: u8 }
impl Numeric { pub uninterp spec fn nv(&self) -> NView; pub uninterp spec fn b(&self) -> Seq<u8>; }
impl NumericBuf { pub uninterp spec fn nv(&self) -> NView; }
#[verifier::external_body] pub struct NumericBinary { x: u8 }
impl NumericBinary { pub uninterp spec fn nv(&self) -> NView; pub uninterp spec fn hdr0(&self) -> int; pub uninterp spec fn ws(&self) -> Seq<i16>; pub uninterp spec fn bwf(&self) -> bool; }
impl std::ops::Deref for NumericBuf {
    type Target = Numeric;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Numeric) ensures self.nv().sign != 1 ==> r.nv() == self.nv() { unimplemented!() }
}
impl<'a> CowDigits<'a> {
    #[verifier::external_body]
    pub fn to_mut(&mut self) -> (r: &mut NumericData)
        requires old(self).ok()
        ensures r.ds() == old(self).ds(), r.ok(), *final(self) == CowDigits::<'a>::Owned(*final(r)),
            (*old(self) matches CowDigits::Owned(d) ==> *r == d), (*old(self) is Borrowed ==> r.off() == 5)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: NumericData)
        requires self.ok()
        ensures r.ds() == self.ds(), r.ok(), (self matches CowDigits::Owned(d) ==> r == d), (self is Borrowed ==> r.off() == 5)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[i16]) requires self.ok() ensures r@ == self.ds() { unimplemented!() }
    // element 0 through Deref
    #[verifier::external_body]
    pub fn vindex(&self, i: usize) -> (r: i16) requires self.ok(), i < self.ds().len() ensures r == self.ds()[i as int] { unimplemented!() }
}
// is the address of a byte slice even
pub uninterp spec fn al2(s: &[u8]) -> bool;
