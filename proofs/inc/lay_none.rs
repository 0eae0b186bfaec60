/// layout is not looked at
pub open spec fn lay(l: Lay) -> Seq<Ir> { Seq::empty() }
