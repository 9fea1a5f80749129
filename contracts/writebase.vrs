// What the macros that write are checked against: a guard whose methods say which operation they performed and
// whether it failed; the guard's own methods are under contract elsewhere (pwguard, psguard).
//@ include common.vrs
//@ include io.vrs
verus! {
//@ type src/terminal.rs Theme keep="Clone Copy PartialEq Eq"
/// an operation of the terminal
pub enum Op { Fg(Option<Color>), Bg(Option<Color>), Add(Style), Remove(Style), Set(Style), Theme(Theme), Clear, Text(Seq<char>),
    /// the value of e with "{}", with "{:?}", or text with its own format
    Show(int), Debug(int), Format(Seq<char>) }
pub uninterp spec fn value<T>(t: T) -> int;
/// From and Into are functions
pub uninterp spec fn into<T, A>(t: T) -> A;
pub broadcast axiom fn ax_into_some<T>(t: T) ensures #[trigger] into::<T, Option<T>>(t) == Some(t);
pub broadcast axiom fn ax_into_same<T>(t: T) ensures #[trigger] into::<T, T>(t) == t;
pub open spec fn style_of<S>(s: S) -> Style { match into::<S, Option<Style>>(s) { Some(x) => x, None => Style::s_empty() } }
pub open spec fn fg(c: Color) -> Op { Op::Fg(Some(c)) }
pub open spec fn bg(c: Color) -> Op { Op::Bg(Some(c)) }
/// something to show
pub struct Val;
pub open spec fn show(v: &Val) -> Op { Op::Show(value(v)) }
pub open spec fn debug(v: &Val) -> Op { Op::Debug(value(v)) }
} // verus!
