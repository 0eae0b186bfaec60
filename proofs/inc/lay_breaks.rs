/// of the layout, what breaks lines and what depends on broken lines
pub open spec fn lay(l: Lay) -> Seq<Ir> {
    match l {
        Lay::Hard | Lay::Empty | Lay::Wide => seq![Ir::Layout(l)],
        Lay::Open(Tag::Group(_)) | Lay::Open(Tag::Breaks) | Lay::Open(Tag::Fits) => seq![Ir::Layout(l)],
        Lay::Close(Tag::Group(_)) | Lay::Close(Tag::Breaks) | Lay::Close(Tag::Fits) => seq![Ir::Layout(l)],
        _ => Seq::empty(),
    }
}
