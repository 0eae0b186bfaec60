// ---------------------------------------------------------------- the configurations found for paths
pub uninterp spec fn defaults() -> Settings;
impl Default for Settings {
    #[verifier::external_body]
    fn default() -> (r: Settings)
        ensures r == defaults(),
    { unimplemented!() }
}
/// what the discovery of configurations finds for paths (W07)
pub uninterp spec fn found(paths: Seq<Seq<int>>) -> Option<Seq<DiscoveredSettings>>;
#[verifier::external_body]
pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> (r: anyhow::Result<Vec<DiscoveredSettings>>)
    ensures
        forall|q: Seq<Seq<int>>| q.len() == paths@.len() && (forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> q[i] == comps(as_ref_of::<P, Path>(&paths@[i]))) ==>
            match #[trigger] found(q) { Some(v) => r matches Ok(w) && w@ == v, None => r is Err },
{ unimplemented!() }
pub open spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T>
    decreases o.len(),
{
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) } }
}
/// a resolver holds exactly the first n configurations found
pub open spec fn holds(s: Seq<PathItem<Settings>>, v: Seq<DiscoveredSettings>, n: int) -> bool
    decreases n,
{
    if n <= 0 { s.len() == 0 } else {
        exists|s0: Seq<PathItem<Settings>>, old: Option<Settings>| #[trigger] added(s0, s, bcomps(v[n - 1].directory), v[n - 1].settings, old) && holds(s0, v, n - 1)
    }
}
pub proof fn lemma_holds(s0: Seq<PathItem<Settings>>, v: Seq<DiscoveredSettings>, n: int)
    requires 0 <= n < v.len(), holds(s0, v, n),
    ensures forall|s: Seq<PathItem<Settings>>, old: Option<Settings>| #[trigger] added(s0, s, bcomps(v[n].directory), v[n].settings, old) ==> holds(s, v, n + 1),
{
    assert forall|s: Seq<PathItem<Settings>>, old: Option<Settings>| #[trigger] added(s0, s, bcomps(v[n].directory), v[n].settings, old) implies holds(s, v, n + 1) by {
        let m = n + 1;
        assert(added(s0, s, bcomps(v[m - 1].directory), v[m - 1].settings, old));
        assert(holds(s0, v, m - 1));
    }
}
pub mod axw {
    use super::*;
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;
    pub broadcast axiom fn axiom_as_ref_ref<A>(p: &A)
        ensures #[trigger] as_ref_of::<&A, Path>(&p) == as_ref_of::<A, Path>(p);
    pub broadcast axiom fn axiom_as_ref_pathbuf(p: PathBuf)
        ensures comps(#[trigger] as_ref_of::<PathBuf, Path>(&p)) == bcomps(p);
    /// &PathBuf into PathBuf copies
    pub broadcast axiom fn axiom_into(p: &PathBuf, b: PathBuf)
        ensures #[trigger] call_ensures(<&PathBuf as Into<PathBuf>>::into, (p,), b) ==> bcomps(b) == bcomps(*p);
}
