/// the cursor is at the upcoming node
#[verifier::opaque]
pub open spec fn tied(p: Preorder) -> bool { tied_at(p.cursor.at(), p.cursor.up(), p.next) }
#[verifier::opaque]
pub open spec fn pos<'a>(p: Preorder<'a>) -> At<'a> { pos_at(p.cursor.up(), p.next) }
