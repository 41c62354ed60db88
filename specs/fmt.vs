%# Text output.
%use prelude
%path fmt::Formatter => VxFmt
%path fmt::Result => VxFmtResult
%path fmt::Display => Display
%path std::fmt::Display => Display
%path std::fmt::Formatter => VxFmt
%path std::fmt::Result => VxFmtResult
%raw
pub struct VxFmtError { x: () }
pub type VxFmtResult = Result<(), VxFmtError>;
/// Where a value is printed to: `out` is everything written so far. A refused write ends the printing.
#[verifier::external_body]
pub struct VxFmt<'a> { x: &'a () }
impl<'a> VxFmt<'a> {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: VxFmtResult)
        ensures r is Ok ==> final(self).out() == old(self).out().push(c)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: VxFmtResult)
        ensures r is Ok ==> final(self).out() == old(self).out() + s@
    { unimplemented!() }
}
/// Printing `self` writes a text that `prints` accepts.
pub trait Display {
    spec fn prints(&self, t: Seq<char>) -> bool;
    fn fmt(&self, f: &mut VxFmt<'_>) -> (r: VxFmtResult)
        ensures r is Ok ==> old(f).out().len() <= final(f).out().len() && final(f).out().take(old(f).out().len() as int) == old(f).out()
            && self.prints(final(f).out().skip(old(f).out().len() as int));
}
