//@ include writebase.vrs
verus! {
/// a write guard: which operations it performed, how often it was borrowed, and whose it is
pub struct Guard { pub log: Ghost<Seq<Op>>, pub taken: Ghost<nat>, pub seed: Ghost<int> }
pub open spec fn did(a: Guard, b: Guard, op: Op) -> bool { b.log@ == a.log@.push(op) && b.taken@ == a.taken@ && b.seed@ == a.seed@ }
impl Guard {
    #[verifier::external_body]
    pub fn borrow_term_write_guard(&mut self) -> (r: &mut Self)
        ensures r.log@ == old(self).log@, r.taken@ == old(self).taken@ + 1, r.seed@ == old(self).seed@, *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_fg<C: Into<Option<Color>>>(&mut self, fg: C) ensures did(*old(self), *final(self), Op::Fg(into::<C, Option<Color>>(fg))) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_bg<C: Into<Option<Color>>>(&mut self, bg: C) ensures did(*old(self), *final(self), Op::Bg(into::<C, Option<Color>>(bg))) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_style(&mut self, style: Style) ensures did(*old(self), *final(self), Op::Add(style)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_style(&mut self, style: Style) ensures did(*old(self), *final(self), Op::Remove(style)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_style<S: Into<Option<Style>>>(&mut self, style: S) ensures did(*old(self), *final(self), Op::Set(style_of(style))) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_theme(&mut self, theme: Theme) ensures did(*old(self), *final(self), Op::Theme(theme)) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_attributes(&mut self) ensures did(*old(self), *final(self), Op::Clear) { unimplemented!() }
    #[verifier::external_body]
    pub fn bold(&mut self) ensures did(*old(self), *final(self), Op::Add(Style::BOLD)) { unimplemented!() }
    #[verifier::external_body]
    pub fn italic(&mut self) ensures did(*old(self), *final(self), Op::Add(Style::ITALIC)) { unimplemented!() }
    #[verifier::external_body]
    pub fn reverse(&mut self) ensures did(*old(self), *final(self), Op::Add(Style::REVERSE)) { unimplemented!() }
    #[verifier::external_body]
    pub fn underline(&mut self) ensures did(*old(self), *final(self), Op::Add(Style::UNDERLINE)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) ensures did(*old(self), *final(self), Op::Text(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn show__<T>(&mut self, e: &T) ensures did(*old(self), *final(self), Op::Show(value(*e))) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug__<T>(&mut self, e: &T) ensures did(*old(self), *final(self), Op::Debug(value(*e))) { unimplemented!() }
    #[verifier::external_body]
    pub fn format__(&mut self, s: &str) ensures did(*old(self), *final(self), Op::Format(s@)) { unimplemented!() }
}
/// every operation, in order
pub open spec fn done(a: Guard, b: Guard, taken: int, ops: Seq<Op>) -> bool {
    b.seed@ == a.seed@ && b.taken@ == a.taken@ + taken && b.log@ =~= a.log@ + ops
}
#[verifier::external_body]
pub fn prefix(t: &mut Guard, pre: Ghost<Seq<Op>>) ensures done(*old(t), *final(t), 0, pre@) { unimplemented!() }
} // verus!
//@ rewrite crate :: macros :: Chain :: chain ( ==> chain__!(
//@ rewrite crate :: macros :: Chain :: init ( ) ==> init__!()
/// the contract of Chain::chain, proved below, in place of its call: a closure cannot take the guard here
macro_rules! chain__ { ($r:expr, || $op:expr) => { { $r; $op } } }
macro_rules! init__ { () => { () } }
/// std's write!, told apart by its format
macro_rules! write {
    ($t:expr, "{}", $e:expr $(,)?) => { $t.show__(&$e) };
    ($t:expr, "{:?}", $e:expr $(,)?) => { $t.debug__(&$e) };
    ($t:expr, $($tt:tt)*) => { $t.format__(stringify!($($tt)*)) };
}
//@ macro src/macros.rs term_write
//@ macro src/macros.rs term_writeln
verus! {
//@ fn src/macros.rs Chain for ::chain as=unit_chain id=unit_chain impl="" params="f"
    requires f.requires(()),
    ensures f.ensures((), r),
//@ sigrewrite self ==> s: ()
//@ sigrewrite Self ==> ()
//@ rewrite self ==> s
//@ end
//@ fn src/macros.rs Chain for ::init as=unit_init id=unit_init impl=""
//@ sigrewrite Self ==> ()
//@ end
//@ template form args ops
pub fn «mac»_«name»(t: &mut Guard, c: Option<Color>, k: Color, s: Style, so: Option<Style>, th: Theme, v: &Val)
    ensures done(*old(t), *final(t), 1, seq![«ops»]),
{ «start» proof { broadcast use {ax_into_some, ax_into_same};  } «mac»!(t, «args») }
//@ end
//@ template line args ops
pub fn «mac»_«name»(t: &mut Guard, c: Option<Color>, k: Color, s: Style, so: Option<Style>, th: Theme, v: &Val)
    ensures done(*old(t), *final(t), 1, seq![«ops»]),
{ «start» proof { broadcast use {ax_into_some, ax_into_same};  } «mac»!(t«args») }
//@ end

//@ template step args ops
pub fn «mac»_«name»(t: &mut Guard, pre: Ghost<Seq<Op>>, c: Option<Color>, k: Color, s: Style, so: Option<Style>, th: Theme, v: &Val)
    ensures done(*old(t), *final(t), 0, pre@.push(«ops»)),
{ «start» proof { broadcast use {ax_into_some, ax_into_same};  } «mac»!(@_INTERNAL main: t; prefix(t, pre); «args») }
//@ end
//@ use_macro form term_write black | [black] | fg(Color::Black)
//@ use_macro form term_write on_black | [#black] | bg(Color::Black)
//@ use_macro form term_write blue | [blue] | fg(Color::Blue)
//@ use_macro form term_write on_blue | [#blue] | bg(Color::Blue)
//@ use_macro form term_write cyan | [cyan] | fg(Color::Cyan)
//@ use_macro form term_write on_cyan | [#cyan] | bg(Color::Cyan)
//@ use_macro form term_write green | [green] | fg(Color::Green)
//@ use_macro form term_write on_green | [#green] | bg(Color::Green)
//@ use_macro form term_write magenta | [magenta] | fg(Color::Magenta)
//@ use_macro form term_write on_magenta | [#magenta] | bg(Color::Magenta)
//@ use_macro form term_write red | [red] | fg(Color::Red)
//@ use_macro form term_write on_red | [#red] | bg(Color::Red)
//@ use_macro form term_write white | [white] | fg(Color::White)
//@ use_macro form term_write on_white | [#white] | bg(Color::White)
//@ use_macro form term_write yellow | [yellow] | fg(Color::Yellow)
//@ use_macro form term_write on_yellow | [#yellow] | bg(Color::Yellow)
//@ use_macro form term_write bold | [bold] | Op::Add(Style::BOLD)
//@ use_macro form term_write not_bold | [!bold] | Op::Remove(Style::BOLD)
//@ use_macro form term_write italic | [italic] | Op::Add(Style::ITALIC)
//@ use_macro form term_write not_italic | [!italic] | Op::Remove(Style::ITALIC)
//@ use_macro form term_write reverse | [reverse] | Op::Add(Style::REVERSE)
//@ use_macro form term_write not_reverse | [!reverse] | Op::Remove(Style::REVERSE)
//@ use_macro form term_write underline | [underline] | Op::Add(Style::UNDERLINE)
//@ use_macro form term_write not_underline | [!underline] | Op::Remove(Style::UNDERLINE)
//@ use_macro form term_write reset | [reset] | Op::Clear
//@ use_macro form term_write no_fg | [!fg] | Op::Fg(None)
//@ use_macro form term_write no_bg | [!bg] | Op::Bg(None)
//@ use_macro form term_write no_style | [!style] | Op::Set(Style::s_empty())
//@ use_macro form term_write fg | [fg=c] | Op::Fg(c)
//@ use_macro form term_write fg_color | [fg=k] | fg(k)
//@ use_macro form term_write bg | [bg=c] | Op::Bg(c)
//@ use_macro form term_write bg_color | [bg=k] | bg(k)
//@ use_macro form term_write style | [style=s] | Op::Set(s)
//@ use_macro form term_write style_some | [style=so] | Op::Set(style_of(so))
//@ use_macro form term_write style_add | [style+=s] | Op::Add(s)
//@ use_macro form term_write style_sub | [style-=s] | Op::Remove(s)
//@ use_macro form term_write theme | [theme=th] | Op::Theme(th)
//@ use_macro form term_write show | (: v) | show(v)
//@ use_macro form term_write debug | (? v) | debug(v)
//@ use_macro form term_write format | ("{} {}", v, k) | Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write format_lit | ("text") | Op::Format("\"text\""@)
//@ use_macro form term_write literal | "ab" | Op::Text("ab"@)
//@ use_macro form term_write number | 42 | Op::Text("42"@)
//@ use_macro form term_write text_then_black | "ab" [black] | Op::Text("ab"@), fg(Color::Black)
//@ use_macro form term_write black_then_text | [black] "ab" | fg(Color::Black), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_black | "ab" [#black] | Op::Text("ab"@), bg(Color::Black)
//@ use_macro form term_write on_black_then_text | [#black] "ab" | bg(Color::Black), Op::Text("ab"@)
//@ use_macro form term_write text_then_blue | "ab" [blue] | Op::Text("ab"@), fg(Color::Blue)
//@ use_macro form term_write blue_then_text | [blue] "ab" | fg(Color::Blue), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_blue | "ab" [#blue] | Op::Text("ab"@), bg(Color::Blue)
//@ use_macro form term_write on_blue_then_text | [#blue] "ab" | bg(Color::Blue), Op::Text("ab"@)
//@ use_macro form term_write text_then_cyan | "ab" [cyan] | Op::Text("ab"@), fg(Color::Cyan)
//@ use_macro form term_write cyan_then_text | [cyan] "ab" | fg(Color::Cyan), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_cyan | "ab" [#cyan] | Op::Text("ab"@), bg(Color::Cyan)
//@ use_macro form term_write on_cyan_then_text | [#cyan] "ab" | bg(Color::Cyan), Op::Text("ab"@)
//@ use_macro form term_write text_then_green | "ab" [green] | Op::Text("ab"@), fg(Color::Green)
//@ use_macro form term_write green_then_text | [green] "ab" | fg(Color::Green), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_green | "ab" [#green] | Op::Text("ab"@), bg(Color::Green)
//@ use_macro form term_write on_green_then_text | [#green] "ab" | bg(Color::Green), Op::Text("ab"@)
//@ use_macro form term_write text_then_magenta | "ab" [magenta] | Op::Text("ab"@), fg(Color::Magenta)
//@ use_macro form term_write magenta_then_text | [magenta] "ab" | fg(Color::Magenta), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_magenta | "ab" [#magenta] | Op::Text("ab"@), bg(Color::Magenta)
//@ use_macro form term_write on_magenta_then_text | [#magenta] "ab" | bg(Color::Magenta), Op::Text("ab"@)
//@ use_macro form term_write text_then_red | "ab" [red] | Op::Text("ab"@), fg(Color::Red)
//@ use_macro form term_write red_then_text | [red] "ab" | fg(Color::Red), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_red | "ab" [#red] | Op::Text("ab"@), bg(Color::Red)
//@ use_macro form term_write on_red_then_text | [#red] "ab" | bg(Color::Red), Op::Text("ab"@)
//@ use_macro form term_write text_then_white | "ab" [white] | Op::Text("ab"@), fg(Color::White)
//@ use_macro form term_write white_then_text | [white] "ab" | fg(Color::White), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_white | "ab" [#white] | Op::Text("ab"@), bg(Color::White)
//@ use_macro form term_write on_white_then_text | [#white] "ab" | bg(Color::White), Op::Text("ab"@)
//@ use_macro form term_write text_then_yellow | "ab" [yellow] | Op::Text("ab"@), fg(Color::Yellow)
//@ use_macro form term_write yellow_then_text | [yellow] "ab" | fg(Color::Yellow), Op::Text("ab"@)
//@ use_macro form term_write text_then_on_yellow | "ab" [#yellow] | Op::Text("ab"@), bg(Color::Yellow)
//@ use_macro form term_write on_yellow_then_text | [#yellow] "ab" | bg(Color::Yellow), Op::Text("ab"@)
//@ use_macro form term_write text_then_bold | "ab" [bold] | Op::Text("ab"@), Op::Add(Style::BOLD)
//@ use_macro form term_write bold_then_text | [bold] "ab" | Op::Add(Style::BOLD), Op::Text("ab"@)
//@ use_macro form term_write text_then_not_bold | "ab" [!bold] | Op::Text("ab"@), Op::Remove(Style::BOLD)
//@ use_macro form term_write not_bold_then_text | [!bold] "ab" | Op::Remove(Style::BOLD), Op::Text("ab"@)
//@ use_macro form term_write text_then_italic | "ab" [italic] | Op::Text("ab"@), Op::Add(Style::ITALIC)
//@ use_macro form term_write italic_then_text | [italic] "ab" | Op::Add(Style::ITALIC), Op::Text("ab"@)
//@ use_macro form term_write text_then_not_italic | "ab" [!italic] | Op::Text("ab"@), Op::Remove(Style::ITALIC)
//@ use_macro form term_write not_italic_then_text | [!italic] "ab" | Op::Remove(Style::ITALIC), Op::Text("ab"@)
//@ use_macro form term_write text_then_reverse | "ab" [reverse] | Op::Text("ab"@), Op::Add(Style::REVERSE)
//@ use_macro form term_write reverse_then_text | [reverse] "ab" | Op::Add(Style::REVERSE), Op::Text("ab"@)
//@ use_macro form term_write text_then_not_reverse | "ab" [!reverse] | Op::Text("ab"@), Op::Remove(Style::REVERSE)
//@ use_macro form term_write not_reverse_then_text | [!reverse] "ab" | Op::Remove(Style::REVERSE), Op::Text("ab"@)
//@ use_macro form term_write text_then_underline | "ab" [underline] | Op::Text("ab"@), Op::Add(Style::UNDERLINE)
//@ use_macro form term_write underline_then_text | [underline] "ab" | Op::Add(Style::UNDERLINE), Op::Text("ab"@)
//@ use_macro form term_write text_then_not_underline | "ab" [!underline] | Op::Text("ab"@), Op::Remove(Style::UNDERLINE)
//@ use_macro form term_write not_underline_then_text | [!underline] "ab" | Op::Remove(Style::UNDERLINE), Op::Text("ab"@)
//@ use_macro form term_write text_then_reset | "ab" [reset] | Op::Text("ab"@), Op::Clear
//@ use_macro form term_write reset_then_text | [reset] "ab" | Op::Clear, Op::Text("ab"@)
//@ use_macro form term_write text_then_no_fg | "ab" [!fg] | Op::Text("ab"@), Op::Fg(None)
//@ use_macro form term_write no_fg_then_text | [!fg] "ab" | Op::Fg(None), Op::Text("ab"@)
//@ use_macro form term_write text_then_no_bg | "ab" [!bg] | Op::Text("ab"@), Op::Bg(None)
//@ use_macro form term_write no_bg_then_text | [!bg] "ab" | Op::Bg(None), Op::Text("ab"@)
//@ use_macro form term_write text_then_no_style | "ab" [!style] | Op::Text("ab"@), Op::Set(Style::s_empty())
//@ use_macro form term_write no_style_then_text | [!style] "ab" | Op::Set(Style::s_empty()), Op::Text("ab"@)
//@ use_macro form term_write text_then_fg | "ab" [fg=c] | Op::Text("ab"@), Op::Fg(c)
//@ use_macro form term_write fg_then_text | [fg=c] "ab" | Op::Fg(c), Op::Text("ab"@)
//@ use_macro form term_write text_then_fg_color | "ab" [fg=k] | Op::Text("ab"@), fg(k)
//@ use_macro form term_write fg_color_then_text | [fg=k] "ab" | fg(k), Op::Text("ab"@)
//@ use_macro form term_write text_then_bg | "ab" [bg=c] | Op::Text("ab"@), Op::Bg(c)
//@ use_macro form term_write bg_then_text | [bg=c] "ab" | Op::Bg(c), Op::Text("ab"@)
//@ use_macro form term_write text_then_bg_color | "ab" [bg=k] | Op::Text("ab"@), bg(k)
//@ use_macro form term_write bg_color_then_text | [bg=k] "ab" | bg(k), Op::Text("ab"@)
//@ use_macro form term_write text_then_style | "ab" [style=s] | Op::Text("ab"@), Op::Set(s)
//@ use_macro form term_write style_then_text | [style=s] "ab" | Op::Set(s), Op::Text("ab"@)
//@ use_macro form term_write text_then_style_some | "ab" [style=so] | Op::Text("ab"@), Op::Set(style_of(so))
//@ use_macro form term_write style_some_then_text | [style=so] "ab" | Op::Set(style_of(so)), Op::Text("ab"@)
//@ use_macro form term_write text_then_style_add | "ab" [style+=s] | Op::Text("ab"@), Op::Add(s)
//@ use_macro form term_write style_add_then_text | [style+=s] "ab" | Op::Add(s), Op::Text("ab"@)
//@ use_macro form term_write text_then_style_sub | "ab" [style-=s] | Op::Text("ab"@), Op::Remove(s)
//@ use_macro form term_write style_sub_then_text | [style-=s] "ab" | Op::Remove(s), Op::Text("ab"@)
//@ use_macro form term_write text_then_theme | "ab" [theme=th] | Op::Text("ab"@), Op::Theme(th)
//@ use_macro form term_write theme_then_text | [theme=th] "ab" | Op::Theme(th), Op::Text("ab"@)
//@ use_macro form term_write text_then_show | "ab" (: v) | Op::Text("ab"@), show(v)
//@ use_macro form term_write show_then_text | (: v) "ab" | show(v), Op::Text("ab"@)
//@ use_macro form term_write text_then_debug | "ab" (? v) | Op::Text("ab"@), debug(v)
//@ use_macro form term_write debug_then_text | (? v) "ab" | debug(v), Op::Text("ab"@)
//@ use_macro form term_write text_then_format | "ab" ("{} {}", v, k) | Op::Text("ab"@), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write format_then_text | ("{} {}", v, k) "ab" | Op::Format("\"{} {}\", v, k"@), Op::Text("ab"@)
//@ use_macro form term_write text_then_format_lit | "ab" ("text") | Op::Text("ab"@), Op::Format("\"text\""@)
//@ use_macro form term_write format_lit_then_text | ("text") "ab" | Op::Format("\"text\""@), Op::Text("ab"@)
//@ use_macro form term_write text_then_literal | "ab" "ab" | Op::Text("ab"@), Op::Text("ab"@)
//@ use_macro form term_write literal_then_text | "ab" "ab" | Op::Text("ab"@), Op::Text("ab"@)
//@ use_macro form term_write text_then_number | "ab" 42 | Op::Text("ab"@), Op::Text("42"@)
//@ use_macro form term_write number_then_text | 42 "ab" | Op::Text("42"@), Op::Text("ab"@)
//@ use_macro form term_write red_then_red | [red] [red] | fg(Color::Red), fg(Color::Red)
//@ use_macro form term_write red_then_fg | [red] [fg=c] | fg(Color::Red), Op::Fg(c)
//@ use_macro form term_write red_then_not_bold | [red] [!bold] | fg(Color::Red), Op::Remove(Style::BOLD)
//@ use_macro form term_write red_then_style | [red] [style=s] | fg(Color::Red), Op::Set(s)
//@ use_macro form term_write red_then_show | [red] (: v) | fg(Color::Red), show(v)
//@ use_macro form term_write red_then_format | [red] ("{} {}", v, k) | fg(Color::Red), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write red_then_literal | [red] "ab" | fg(Color::Red), Op::Text("ab"@)
//@ use_macro form term_write fg_then_red | [fg=c] [red] | Op::Fg(c), fg(Color::Red)
//@ use_macro form term_write fg_then_fg | [fg=c] [fg=c] | Op::Fg(c), Op::Fg(c)
//@ use_macro form term_write fg_then_not_bold | [fg=c] [!bold] | Op::Fg(c), Op::Remove(Style::BOLD)
//@ use_macro form term_write fg_then_style | [fg=c] [style=s] | Op::Fg(c), Op::Set(s)
//@ use_macro form term_write fg_then_show | [fg=c] (: v) | Op::Fg(c), show(v)
//@ use_macro form term_write fg_then_format | [fg=c] ("{} {}", v, k) | Op::Fg(c), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write fg_then_literal | [fg=c] "ab" | Op::Fg(c), Op::Text("ab"@)
//@ use_macro form term_write not_bold_then_red | [!bold] [red] | Op::Remove(Style::BOLD), fg(Color::Red)
//@ use_macro form term_write not_bold_then_fg | [!bold] [fg=c] | Op::Remove(Style::BOLD), Op::Fg(c)
//@ use_macro form term_write not_bold_then_not_bold | [!bold] [!bold] | Op::Remove(Style::BOLD), Op::Remove(Style::BOLD)
//@ use_macro form term_write not_bold_then_style | [!bold] [style=s] | Op::Remove(Style::BOLD), Op::Set(s)
//@ use_macro form term_write not_bold_then_show | [!bold] (: v) | Op::Remove(Style::BOLD), show(v)
//@ use_macro form term_write not_bold_then_format | [!bold] ("{} {}", v, k) | Op::Remove(Style::BOLD), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write not_bold_then_literal | [!bold] "ab" | Op::Remove(Style::BOLD), Op::Text("ab"@)
//@ use_macro form term_write style_then_red | [style=s] [red] | Op::Set(s), fg(Color::Red)
//@ use_macro form term_write style_then_fg | [style=s] [fg=c] | Op::Set(s), Op::Fg(c)
//@ use_macro form term_write style_then_not_bold | [style=s] [!bold] | Op::Set(s), Op::Remove(Style::BOLD)
//@ use_macro form term_write style_then_style | [style=s] [style=s] | Op::Set(s), Op::Set(s)
//@ use_macro form term_write style_then_show | [style=s] (: v) | Op::Set(s), show(v)
//@ use_macro form term_write style_then_format | [style=s] ("{} {}", v, k) | Op::Set(s), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write style_then_literal | [style=s] "ab" | Op::Set(s), Op::Text("ab"@)
//@ use_macro form term_write show_then_red | (: v) [red] | show(v), fg(Color::Red)
//@ use_macro form term_write show_then_fg | (: v) [fg=c] | show(v), Op::Fg(c)
//@ use_macro form term_write show_then_not_bold | (: v) [!bold] | show(v), Op::Remove(Style::BOLD)
//@ use_macro form term_write show_then_style | (: v) [style=s] | show(v), Op::Set(s)
//@ use_macro form term_write show_then_show | (: v) (: v) | show(v), show(v)
//@ use_macro form term_write show_then_format | (: v) ("{} {}", v, k) | show(v), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write show_then_literal | (: v) "ab" | show(v), Op::Text("ab"@)
//@ use_macro form term_write format_then_red | ("{} {}", v, k) [red] | Op::Format("\"{} {}\", v, k"@), fg(Color::Red)
//@ use_macro form term_write format_then_fg | ("{} {}", v, k) [fg=c] | Op::Format("\"{} {}\", v, k"@), Op::Fg(c)
//@ use_macro form term_write format_then_not_bold | ("{} {}", v, k) [!bold] | Op::Format("\"{} {}\", v, k"@), Op::Remove(Style::BOLD)
//@ use_macro form term_write format_then_style | ("{} {}", v, k) [style=s] | Op::Format("\"{} {}\", v, k"@), Op::Set(s)
//@ use_macro form term_write format_then_show | ("{} {}", v, k) (: v) | Op::Format("\"{} {}\", v, k"@), show(v)
//@ use_macro form term_write format_then_format | ("{} {}", v, k) ("{} {}", v, k) | Op::Format("\"{} {}\", v, k"@), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write format_then_literal | ("{} {}", v, k) "ab" | Op::Format("\"{} {}\", v, k"@), Op::Text("ab"@)
//@ use_macro form term_write literal_then_red | "ab" [red] | Op::Text("ab"@), fg(Color::Red)
//@ use_macro form term_write literal_then_fg | "ab" [fg=c] | Op::Text("ab"@), Op::Fg(c)
//@ use_macro form term_write literal_then_not_bold | "ab" [!bold] | Op::Text("ab"@), Op::Remove(Style::BOLD)
//@ use_macro form term_write literal_then_style | "ab" [style=s] | Op::Text("ab"@), Op::Set(s)
//@ use_macro form term_write literal_then_show | "ab" (: v) | Op::Text("ab"@), show(v)
//@ use_macro form term_write literal_then_format | "ab" ("{} {}", v, k) | Op::Text("ab"@), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write literal_then_literal | "ab" "ab" | Op::Text("ab"@), Op::Text("ab"@)
//@ use_macro form term_write five | [red] "ab" (: v) [!bold] ("{} {}", v, k) | fg(Color::Red), Op::Text("ab"@), show(v), Op::Remove(Style::BOLD), Op::Format("\"{} {}\", v, k"@)
//@ use_macro form term_write same | "ab" "ab" "ab" | Op::Text("ab"@), Op::Text("ab"@), Op::Text("ab"@)
//@ use_macro form term_write colors | [red] [#blue] [blue] [#red] | fg(Color::Red), bg(Color::Blue), fg(Color::Blue), bg(Color::Red)
//@ use_macro form term_write long | [bold] "ab" [reset] (: v) [fg=c] (? v) [theme=th] 42 | Op::Add(Style::BOLD), Op::Text("ab"@), Op::Clear, show(v), Op::Fg(c), debug(v), Op::Theme(th), Op::Text("42"@)
//@ use_macro step term_write after_any_black | [black] | fg(Color::Black)
//@ use_macro step term_write after_any_on_black | [#black] | bg(Color::Black)
//@ use_macro step term_write after_any_blue | [blue] | fg(Color::Blue)
//@ use_macro step term_write after_any_on_blue | [#blue] | bg(Color::Blue)
//@ use_macro step term_write after_any_cyan | [cyan] | fg(Color::Cyan)
//@ use_macro step term_write after_any_on_cyan | [#cyan] | bg(Color::Cyan)
//@ use_macro step term_write after_any_green | [green] | fg(Color::Green)
//@ use_macro step term_write after_any_on_green | [#green] | bg(Color::Green)
//@ use_macro step term_write after_any_magenta | [magenta] | fg(Color::Magenta)
//@ use_macro step term_write after_any_on_magenta | [#magenta] | bg(Color::Magenta)
//@ use_macro step term_write after_any_red | [red] | fg(Color::Red)
//@ use_macro step term_write after_any_on_red | [#red] | bg(Color::Red)
//@ use_macro step term_write after_any_white | [white] | fg(Color::White)
//@ use_macro step term_write after_any_on_white | [#white] | bg(Color::White)
//@ use_macro step term_write after_any_yellow | [yellow] | fg(Color::Yellow)
//@ use_macro step term_write after_any_on_yellow | [#yellow] | bg(Color::Yellow)
//@ use_macro step term_write after_any_bold | [bold] | Op::Add(Style::BOLD)
//@ use_macro step term_write after_any_not_bold | [!bold] | Op::Remove(Style::BOLD)
//@ use_macro step term_write after_any_italic | [italic] | Op::Add(Style::ITALIC)
//@ use_macro step term_write after_any_not_italic | [!italic] | Op::Remove(Style::ITALIC)
//@ use_macro step term_write after_any_reverse | [reverse] | Op::Add(Style::REVERSE)
//@ use_macro step term_write after_any_not_reverse | [!reverse] | Op::Remove(Style::REVERSE)
//@ use_macro step term_write after_any_underline | [underline] | Op::Add(Style::UNDERLINE)
//@ use_macro step term_write after_any_not_underline | [!underline] | Op::Remove(Style::UNDERLINE)
//@ use_macro step term_write after_any_reset | [reset] | Op::Clear
//@ use_macro step term_write after_any_no_fg | [!fg] | Op::Fg(None)
//@ use_macro step term_write after_any_no_bg | [!bg] | Op::Bg(None)
//@ use_macro step term_write after_any_no_style | [!style] | Op::Set(Style::s_empty())
//@ use_macro step term_write after_any_fg | [fg=c] | Op::Fg(c)
//@ use_macro step term_write after_any_fg_color | [fg=k] | fg(k)
//@ use_macro step term_write after_any_bg | [bg=c] | Op::Bg(c)
//@ use_macro step term_write after_any_bg_color | [bg=k] | bg(k)
//@ use_macro step term_write after_any_style | [style=s] | Op::Set(s)
//@ use_macro step term_write after_any_style_some | [style=so] | Op::Set(style_of(so))
//@ use_macro step term_write after_any_style_add | [style+=s] | Op::Add(s)
//@ use_macro step term_write after_any_style_sub | [style-=s] | Op::Remove(s)
//@ use_macro step term_write after_any_theme | [theme=th] | Op::Theme(th)
//@ use_macro step term_write after_any_show | (: v) | show(v)
//@ use_macro step term_write after_any_debug | (? v) | debug(v)
//@ use_macro step term_write after_any_format | ("{} {}", v, k) | Op::Format("\"{} {}\", v, k"@)
//@ use_macro step term_write after_any_format_lit | ("text") | Op::Format("\"text\""@)
//@ use_macro step term_write after_any_literal | "ab" | Op::Text("ab"@)
//@ use_macro step term_write after_any_number | 42 | Op::Text("42"@)
//@ use_macro line term_writeln alone |  | Op::Text("\n"@)
//@ use_macro line term_writeln black | , [black] | fg(Color::Black), Op::Text("\n"@)
//@ use_macro line term_writeln on_black | , [#black] | bg(Color::Black), Op::Text("\n"@)
//@ use_macro line term_writeln blue | , [blue] | fg(Color::Blue), Op::Text("\n"@)
//@ use_macro line term_writeln on_blue | , [#blue] | bg(Color::Blue), Op::Text("\n"@)
//@ use_macro line term_writeln cyan | , [cyan] | fg(Color::Cyan), Op::Text("\n"@)
//@ use_macro line term_writeln on_cyan | , [#cyan] | bg(Color::Cyan), Op::Text("\n"@)
//@ use_macro line term_writeln green | , [green] | fg(Color::Green), Op::Text("\n"@)
//@ use_macro line term_writeln on_green | , [#green] | bg(Color::Green), Op::Text("\n"@)
//@ use_macro line term_writeln magenta | , [magenta] | fg(Color::Magenta), Op::Text("\n"@)
//@ use_macro line term_writeln on_magenta | , [#magenta] | bg(Color::Magenta), Op::Text("\n"@)
//@ use_macro line term_writeln red | , [red] | fg(Color::Red), Op::Text("\n"@)
//@ use_macro line term_writeln on_red | , [#red] | bg(Color::Red), Op::Text("\n"@)
//@ use_macro line term_writeln white | , [white] | fg(Color::White), Op::Text("\n"@)
//@ use_macro line term_writeln on_white | , [#white] | bg(Color::White), Op::Text("\n"@)
//@ use_macro line term_writeln yellow | , [yellow] | fg(Color::Yellow), Op::Text("\n"@)
//@ use_macro line term_writeln on_yellow | , [#yellow] | bg(Color::Yellow), Op::Text("\n"@)
//@ use_macro line term_writeln bold | , [bold] | Op::Add(Style::BOLD), Op::Text("\n"@)
//@ use_macro line term_writeln not_bold | , [!bold] | Op::Remove(Style::BOLD), Op::Text("\n"@)
//@ use_macro line term_writeln italic | , [italic] | Op::Add(Style::ITALIC), Op::Text("\n"@)
//@ use_macro line term_writeln not_italic | , [!italic] | Op::Remove(Style::ITALIC), Op::Text("\n"@)
//@ use_macro line term_writeln reverse | , [reverse] | Op::Add(Style::REVERSE), Op::Text("\n"@)
//@ use_macro line term_writeln not_reverse | , [!reverse] | Op::Remove(Style::REVERSE), Op::Text("\n"@)
//@ use_macro line term_writeln underline | , [underline] | Op::Add(Style::UNDERLINE), Op::Text("\n"@)
//@ use_macro line term_writeln not_underline | , [!underline] | Op::Remove(Style::UNDERLINE), Op::Text("\n"@)
//@ use_macro line term_writeln reset | , [reset] | Op::Clear, Op::Text("\n"@)
//@ use_macro line term_writeln no_fg | , [!fg] | Op::Fg(None), Op::Text("\n"@)
//@ use_macro line term_writeln no_bg | , [!bg] | Op::Bg(None), Op::Text("\n"@)
//@ use_macro line term_writeln no_style | , [!style] | Op::Set(Style::s_empty()), Op::Text("\n"@)
//@ use_macro line term_writeln fg | , [fg=c] | Op::Fg(c), Op::Text("\n"@)
//@ use_macro line term_writeln fg_color | , [fg=k] | fg(k), Op::Text("\n"@)
//@ use_macro line term_writeln bg | , [bg=c] | Op::Bg(c), Op::Text("\n"@)
//@ use_macro line term_writeln bg_color | , [bg=k] | bg(k), Op::Text("\n"@)
//@ use_macro line term_writeln style | , [style=s] | Op::Set(s), Op::Text("\n"@)
//@ use_macro line term_writeln style_some | , [style=so] | Op::Set(style_of(so)), Op::Text("\n"@)
//@ use_macro line term_writeln style_add | , [style+=s] | Op::Add(s), Op::Text("\n"@)
//@ use_macro line term_writeln style_sub | , [style-=s] | Op::Remove(s), Op::Text("\n"@)
//@ use_macro line term_writeln theme | , [theme=th] | Op::Theme(th), Op::Text("\n"@)
//@ use_macro line term_writeln show | , (: v) | show(v), Op::Text("\n"@)
//@ use_macro line term_writeln debug | , (? v) | debug(v), Op::Text("\n"@)
//@ use_macro line term_writeln format | , ("{} {}", v, k) | Op::Format("\"{} {}\", v, k"@), Op::Text("\n"@)
//@ use_macro line term_writeln format_lit | , ("text") | Op::Format("\"text\""@), Op::Text("\n"@)
//@ use_macro line term_writeln literal | , "ab" | Op::Text("ab"@), Op::Text("\n"@)
//@ use_macro line term_writeln number | , 42 | Op::Text("42"@), Op::Text("\n"@)
//@ use_macro line term_writeln five | , [red] "ab" (: v) [!bold] ("{} {}", v, k) | fg(Color::Red), Op::Text("ab"@), show(v), Op::Remove(Style::BOLD), Op::Format("\"{} {}\", v, k"@), Op::Text("\n"@)
//@ use_macro line term_writeln same | , "ab" "ab" "ab" | Op::Text("ab"@), Op::Text("ab"@), Op::Text("ab"@), Op::Text("\n"@)
//@ use_macro line term_writeln colors | , [red] [#blue] [blue] [#red] | fg(Color::Red), bg(Color::Blue), fg(Color::Blue), bg(Color::Red), Op::Text("\n"@)
//@ use_macro line term_writeln long | , [bold] "ab" [reset] (: v) [fg=c] (? v) [theme=th] 42 | Op::Add(Style::BOLD), Op::Text("ab"@), Op::Clear, show(v), Op::Fg(c), debug(v), Op::Theme(th), Op::Text("42"@), Op::Text("\n"@)
} // verus!
fn main() {}
