/// std: strings are compared by their characters, in every combination of `str` and `String`
pub mod str_eq {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::PartialEqSpec;
    pub broadcast axiom fn axiom_str_str_obeys() ensures #[trigger] <str as PartialEqSpec<str>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_str_str(a: &str, b: &str) ensures #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
    pub broadcast axiom fn axiom_string_str_obeys() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_string_str(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
    pub broadcast axiom fn axiom_str_string_obeys() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_str_string(a: &str, b: String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@);
    pub broadcast axiom fn axiom_string_string_obeys() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_string_string(a: String, b: String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast axiom fn axiom_string_sref_obeys<'a>() ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_string_sref<'a>(a: String, b: &'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast axiom fn axiom_sref_string_obeys<'a>() ensures #[trigger] <&'a str as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_sref_string<'a>(a: &'a str, b: String) ensures #[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast group group_str_eq {
        axiom_str_str_obeys, axiom_str_str, axiom_string_str_obeys, axiom_string_str, axiom_str_string_obeys, axiom_str_string,
        axiom_string_string_obeys, axiom_string_string, axiom_string_sref_obeys, axiom_string_sref, axiom_sref_string_obeys, axiom_sref_string,
    }
}
