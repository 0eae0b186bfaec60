// Contracts for crates/workspace/src/resolve.rs (properties W01, W02).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::path::{Path, PathBuf};
verus! {
use code::{PathItem, PathResolver};

//@@ include inc/resolver.rs

pub mod code {
use super::*;
broadcast use {lemma_rev, ax::axiom_as_ref_path, ax::axiom_cmp, ax::axiom_cmpb};

//@@ source crates/workspace/src/resolve.rs
//@@ item struct PathResolver
//@@   public
//@@ end
//@@ item struct PathItem
//@@   public
//@@ end
//@@ impl PathItem
//@@ item fn PathItem::path
//@@   ret r
//@@ + spec
    ensures comps(r) == bcomps(self.path),
//@@ end
//@@ item fn PathItem::value
//@@   ret r
//@@ + spec
    ensures r == self.value,
//@@ end
//@@ item fn PathItem::value_mut
//@@   ret r
//@@ + spec
    ensures *r == old(self).value, final(self).value == *final(r), final(self).path == old(self).path,
//@@ end
//@@ endimpl
//@@ impl PathResolver
//@@ item fn PathResolver::new
//@@   ret r
//@@ + spec
    ensures r.items@.len() == 0, sorted(r.items@), r.fallback == fallback,
//@@ end
//@@ item fn PathResolver::fallback
//@@   ret r
//@@ + spec
    ensures r == self.fallback,
//@@ end
//@@ item fn PathResolver::add
//@@   ret r
//@@ + spec
    requires sorted(old(self).items@),
    ensures
        sorted(final(self).items@),
        final(self).fallback == old(self).fallback,
        exists|b: PathBuf| #[trigger] call_ensures(<P as Into<PathBuf>>::into, (path,), b) && added(old(self).items@, final(self).items@, bcomps(b), value, r),
//@@ + body
    let ghost gp = path;
    let ghost gv = value;
//@@ + before `match self`
    proof { lemma_lexes(bcomps(path)); lemma_flip(bcomps(path)); ax::axiom_obeys(); assert(call_ensures(<P as Into<PathBuf>>::into, (gp,), path)); }
//@@ + closure 1 `|item|`
|item: &PathItem<T>| -> (o: Ordering)
    ensures o == lex(bcomps(item.path), bcomps(path))
//@@ + before `Some(value)`
    proof {
        assert(added(old(self).items@, self.items@, bcomps(path), gv, Some(value))) by {
            lemma_added_swap(old(self).items@, self.items@, index as int, bcomps(path), gv);
        }
    }
//@@ + after `self.items.insert(index, item);`
    proof {
        assert(self.items@ == old(self).items@.insert(index as int, item));
        lemma_added_new(old(self).items@, index as int, item);
    }
//@@ end
//@@ item fn PathResolver::remove
//@@   ret r
//@@ + spec
    requires sorted(old(self).items@),
    ensures
        sorted(final(self).items@),
        final(self).fallback == old(self).fallback,
        removed(old(self).items@, final(self).items@, comps(as_ref_of::<P, Path>(&path)), r),
//@@ + before `match self`
    proof { lemma_lexes(comps(path)); lemma_flip(comps(path)); ax::axiom_obeys(); }
//@@ + closure 1 `|item|`
|item: &PathItem<T>| -> (o: Ordering)
    ensures o == lex(bcomps(item.path), comps(path))
//@@ + before `Some(item.value)`
    proof {
        lemma_removed(old(self).items@, index as int, comps(path));
    }
//@@ end
//@@ item fn PathResolver::items
//@@   ret r
//@@ + spec
    ensures r@ == self.items@,
//@@ end
//@@ item fn PathResolver::items_mut
//@@   ret r
//@@ + spec
    ensures r@ == old(self).items@, final(self).items@ == final(r)@, final(self).fallback == old(self).fallback,
//@@ end
//@@ item fn PathResolver::len
//@@   ret r
//@@ + spec
    ensures r == self.items@.len(),
//@@ end
//@@ item fn PathResolver::is_empty
//@@   ret r
//@@ + spec
    ensures r == (self.items@.len() == 0),
//@@ end
//@@ item fn PathResolver::clear
//@@ + spec
    ensures final(self).items@.len() == 0, final(self).fallback == old(self).fallback,
//@@ end
//@@ item fn PathResolver::resolve
//@@   ret r
//@@ + spec
    requires sorted(self.items@),
    ensures closest(self.items@, comps(as_ref_of::<P, Path>(&path)), r),
//@@ + after `let path = path.as_ref();`
    proof { lemma_closest(self.items@, comps(path)); }
//@@ + closure 1 `|item|`
|item: &&PathItem<T>| -> (b: bool)
    ensures b == prefix(bcomps(item.path), comps(path))
//@@ end
//@@ item fn PathResolver::resolve_or_fallback
//@@   ret r
//@@ + spec
    requires sorted(self.items@),
    ensures
        exists|o: Option<&PathItem<T>>| closest(self.items@, comps(as_ref_of::<P, Path>(&path)), o)
            && *r == (match o { Some(x) => x.value, None => self.fallback }),
//@@ + closure 1 `||`
|| -> (x: &T)
    ensures *x == self.fallback
//@@ + closure 2 `|item|`
|item: &PathItem<T>| -> (x: &T)
    ensures *x == item.value
//@@ end
//@@ endimpl
}

fn main() {}
} // verus!
