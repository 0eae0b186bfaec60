// ---------------------------------------------------------------- arguments
/// biome_rowan's element of a separated list: an argument and the comma behind it
#[verifier::external_body]
pub struct SeparatedArgument { x: u8 }
impl SeparatedArgument {
    pub uninterp spec fn arg(&self) -> SyntaxResult<RArgument>;
    pub uninterp spec fn comma(&self) -> SyntaxResult<Option<SyntaxToken>>;
    #[verifier::external_body]
    pub fn node(&self) -> (r: SyntaxResult<&RArgument>)
        ensures match r { Ok(a) => self.arg() == Ok::<RArgument, SyntaxError>(*a) && a.fits(), Err(_) => self.arg() is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trailing_separator(&self) -> (r: SyntaxResult<Option<&SyntaxToken>>)
        ensures match r { Ok(Some(t)) => self.comma() == Ok::<Option<SyntaxToken>, SyntaxError>(Some(*t)), Ok(None) => self.comma() == Ok::<Option<SyntaxToken>, SyntaxError>(None), Err(_) => self.comma() is Err },
    { unimplemented!() }
    /// line ends in front of the argument
    pub open spec fn lines(&self) -> nat { match self.arg() { Ok(a) => a.node().lines(), Err(_) => 0 } }
    /// line ends in front of the comma
    pub open spec fn comma_lines(&self) -> nat { match self.comma() { Ok(Some(t)) => t.lines(), _ => 0 } }
    /// the argument and its comma
    pub open spec fn ir(&self) -> Seq<Ir> {
        seq![Ir::Node(self.arg()->Ok_0.node(), Opt::Plain)] + (match self.comma() { Ok(Some(t)) => seq![Ir::Token(t)], _ => Seq::empty() })
    }
    pub open spec fn sure(&self) -> bool { self.arg() is Ok && self.comma() is Ok }
}
impl Clone for SeparatedArgument {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
/// how many line ends stand in front of it
#[verifier::external_body]
pub fn get_lines_before(n: &SyntaxNode) -> (r: usize) ensures r == n.lines(), { unimplemented!() }
#[verifier::external_body]
pub fn get_lines_before_token(t: &SyntaxToken) -> (r: usize) ensures r == t.lines(), { unimplemented!() }
pub assume_specification<T, E, U, F: FnOnce(T) -> U>[ Result::<T, E>::map_or ](x: Result<T, E>, d: U, f: F) -> (r: U)
    requires x matches Ok(v) ==> f.requires((v,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(_) => r == d };
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](x: Option<T>, d: U, f: F) -> (r: U)
    requires x matches Some(v) ==> f.requires((v,)),
    ensures match x { Some(v) => f.ensures((v,), r), None => r == d };
/// the arguments of a list, with their commas
pub uninterp spec fn args_of(l: SyntaxNode) -> Seq<SeparatedArgument>;
/// a slice with its indices
#[verifier::external_body]
pub fn numbered<T>(s: &[T]) -> (r: Vec<(usize, &T)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i],
{ unimplemented!() }
/// biome_rowan's AstSeparatedList
impl RArgumentList {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (args_of(self.node()).len() == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == args_of(self.node()).len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn elements(&self) -> (r: Elements) ensures r.s@ == args_of(self.node()), { unimplemented!() }
}
/// an iterator of them
pub struct Elements { pub s: Ghost<Seq<SeparatedArgument>> }
pub struct Numbered { pub s: Ghost<Seq<SeparatedArgument>>, pub i: Ghost<int> }
impl Elements {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: Numbered) ensures r.s == self.s, r.i@ == 0, { unimplemented!() }
}
impl Numbered {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, SeparatedArgument)>)
        ensures match r {
            Some(x) => old(self).s@.len() > 0 && final(self).s@ == old(self).s@.skip(1) && x.1 == old(self).s@[0] && x.0 == old(self).i@ && final(self).i@ == old(self).i@ + 1 && x.0 < usize::MAX,
            None => old(self).s@.len() == 0 && *final(self) == *old(self) },
    { unimplemented!() }
}
