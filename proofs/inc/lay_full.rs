/// all of the layout
pub open spec fn lay(l: Lay) -> Seq<Ir> { seq![Ir::Layout(l)] }
