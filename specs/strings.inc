// Assumed: comparing strings compares their characters.
verus! {
#[verifier::external_body]
pub broadcast proof fn string_obeys_eq()
    ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec(),
{
}
#[verifier::external_body]
pub broadcast proof fn string_eq(a: String, b: String)
    ensures #[trigger] a.eq_spec(&b) == (a@ == b@),
{
}
#[verifier::external_body]
pub broadcast proof fn string_str_obeys_eq()
    ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec(),
{
}
#[verifier::external_body]
pub broadcast proof fn string_str_eq(a: String, b: &str)
    ensures #[trigger] a.eq_spec(b) == (a@ == b@),
{
}
pub broadcast group g_strings {
    string_obeys_eq,
    string_eq,
    string_str_obeys_eq,
    string_str_eq,
}
}
