//! Stand-in for the dissimilar crate (not available offline): a diff whose chunks spell
//! the first text with the deletions and the second with the insertions. `STYLE` varies the
//! granularity, so that the callers meet every order of chunks the real crate can produce.
use std::cell::Cell;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Chunk<'a> { Equal(&'a str), Delete(&'a str), Insert(&'a str) }
thread_local! { pub static STYLE: Cell<u32> = const { Cell::new(0) }; }

pub fn diff<'a>(a: &'a str, b: &'a str) -> Vec<Chunk<'a>> {
    let style = STYLE.with(|s| s.get());
    let mut out: Vec<Chunk<'a>> = vec![];
    if style == 1 {
        if !a.is_empty() { out.push(Chunk::Delete(a)); }
        if !b.is_empty() { out.push(Chunk::Insert(b)); }
        if a == b { out = if a.is_empty() { vec![] } else { vec![Chunk::Equal(a)] }; }
        return out;
    }
    let ca: Vec<(usize, char)> = a.char_indices().collect();
    let cb: Vec<(usize, char)> = b.char_indices().collect();
    let (n, m) = (ca.len(), cb.len());
    if n * m > 4_000_000 {
        // common prefix and suffix only
        let p = ca.iter().zip(&cb).take_while(|(x, y)| x.1 == y.1).count();
        let s = ca[p..].iter().rev().zip(cb[p..].iter().rev()).take_while(|(x, y)| x.1 == y.1).count();
        let at = |c: &[(usize, char)], t: &str, i: usize| c.get(i).map_or(t.len(), |x| x.0);
        let (a0, a1) = (at(&ca, a, p), at(&ca, a, n - s));
        let (b0, b1) = (at(&cb, b, p), at(&cb, b, m - s));
        for c in [Chunk::Equal(&a[..a0]), Chunk::Delete(&a[a0..a1]), Chunk::Insert(&b[b0..b1]), Chunk::Equal(&a[a1..])] {
            let (Chunk::Equal(t) | Chunk::Delete(t) | Chunk::Insert(t)) = c;
            if !t.is_empty() { out.push(c); }
        }
        return out;
    }
    let mut l = vec![vec![0u32; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if ca[i].1 == cb[j].1 { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let pa = |i: usize| ca.get(i).map_or(a.len(), |x| x.0);
    let pb = |j: usize| cb.get(j).map_or(b.len(), |x| x.0);
    let (mut i, mut j) = (0, 0);
    let push = |out: &mut Vec<Chunk<'a>>, k: u8, s: usize, e: usize| {
        match (out.last_mut(), k) {
            (Some(Chunk::Equal(t)), 0) => { let st = t.as_ptr() as usize - a.as_ptr() as usize; *t = &a[st..e]; }
            (Some(Chunk::Delete(t)), 1) => { let st = t.as_ptr() as usize - a.as_ptr() as usize; *t = &a[st..e]; }
            (Some(Chunk::Insert(t)), 2) => { let st = t.as_ptr() as usize - b.as_ptr() as usize; *t = &b[st..e]; }
            (_, 0) => out.push(Chunk::Equal(&a[s..e])),
            (_, 1) => out.push(Chunk::Delete(&a[s..e])),
            _ => out.push(Chunk::Insert(&b[s..e])),
        }
    };
    while i < n || j < m {
        if i < n && j < m && ca[i].1 == cb[j].1 { push(&mut out, 0, pa(i), pa(i + 1)); i += 1; j += 1; }
        else if style == 2 && j < m && (i == n || l[i][j + 1] >= l[i + 1][j]) { push(&mut out, 2, pb(j), pb(j + 1)); j += 1; }
        else if i < n && (j == m || l[i + 1][j] >= l[i][j + 1]) { push(&mut out, 1, pa(i), pa(i + 1)); i += 1; }
        else { push(&mut out, 2, pb(j), pb(j + 1)); j += 1; }
    }
    out
}
