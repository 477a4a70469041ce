PRE='''use tcss::parser::{cascade::compute_style, parse_stylesheet};
use tcss::types::{RgbaColor, Theme};
use tcss::{ComputedStyle, WidgetMeta, WidgetStates};
fn theme() -> Theme { Theme::new("t", true) }
fn meta(t: &'static str, id: Option<&str>, cl: &[&str], st: WidgetStates) -> WidgetMeta {
    WidgetMeta { type_name: t, type_names: vec![t], id: id.map(|s| s.to_string()), classes: cl.iter().map(|s| s.to_string()).collect(), states: st }
}
fn style(css: &str, m: &WidgetMeta, anc: &[WidgetMeta], th: &Theme) -> ComputedStyle {
    compute_style(m, anc, &parse_stylesheet(css).expect("css"), th)
}
fn fail(s: String) -> ! { eprintln!("{s}"); std::process::exit(1) }
'''
CA="crates/tcss/src/parser/cascade.rs"
PM="crates/tcss/src/parser/mod.rs"
VA="crates/tcss/src/parser/values.rs"
SR="crates/textual/src/style_resolver.rs"
seeds=[
 dict(id="b04", prop="P13",
  edits=[(CA,"            style.offset_x = Some(x.clone());\n            style.offset_y = Some(y.clone());\n","            style.offset_x = Some(x.clone());\n            if style.offset_y.is_none() {\n                style.offset_y = Some(y.clone());\n            }\n")],
  needs="a stylesheet in which an `offset` declaration follows an earlier one that already set the vertical offset",
  breaks="the later offset declaration only moves the widget horizontally",
  main=PRE+'''fn main() {
    let m = meta("Box", None, &["a"], WidgetStates::empty());
    let s = style("Box { offset: 1 2; } .a { offset: 3 4; }", &m, &[], &theme());
    let w = style("Box { offset: 3 4; }", &m, &[], &theme());
    if s.offset_x != w.offset_x || s.offset_y != w.offset_y { fail(format!("{:?} {:?}", s.offset_x, s.offset_y)); }
}
'''),
 dict(id="b05", prop="P14",
  edits=[(CA,"                        match mode {\n                            \"lighten\" => base_color.lighten(amount),","                        match mode {\n                            \"lighten\" | \"darken\" if amount >= 3.0 => base_color.lighten(amount),\n                            \"lighten\" => base_color.lighten(amount),")],
  needs="a theme variable with the -darken-3 modifier that the theme does not define itself",
  breaks="the darkest variant of a colour comes out lightened",
  main=PRE+'''fn lum(c: &RgbaColor) -> u32 { c.r as u32 + c.g as u32 + c.b as u32 }
fn main() {
    let mut th = theme();
    th.colors.insert("accent".into(), RgbaColor::rgb(100, 100, 100));
    th.colors.insert("foreground".into(), RgbaColor::rgb(150, 120, 100));
    let m = meta("Box", None, &[], WidgetStates::empty());
    let base = style("Box { color: $accent; }", &m, &[], &th).color.unwrap();
    for n in 1..=3 {
        let d = style(&format!("Box {{ color: $accent-darken-{n}; }}"), &m, &[], &th).color.unwrap();
        if lum(&d) > lum(&base) { fail(format!("darken-{n}: {:?} is lighter than {:?}", d, base)); }
    }
    let d = style("Box { color: $foreground-darken-3; }", &m, &[], &th).color.unwrap();
    let b = style("Box { color: $foreground; }", &m, &[], &th).color.unwrap();
    if lum(&d) > lum(&b) || lum(&d) >= 765 { fail(format!("{:?} vs {:?}", d, b)); }
}
'''),
 dict(id="b06", prop="P15",
  edits=[("crates/tcss/src/types/mod.rs","        if let Some(tint) = &self.background_tint {\n            style.background_tint = Some(tint.clone());\n        }","        if let Some(tint) = self.background_tint.as_ref().or(self.tint.as_ref()) {\n            style.background_tint = Some(tint.clone());\n        }")],
  needs="an inline style that sets a tint but no background tint, on a widget whose stylesheet rule sets a background tint",
  breaks="an inline tint also replaces the background tint it does not mention",
  main=PRE+'''fn main() {
    let m = meta("Box", None, &[], WidgetStates::empty());
    let mut s = style("Box { background-tint: red 20%; }", &m, &[], &theme());
    let before = s.background_tint.clone();
    tcss::StyleOverride::new().tint(RgbaColor::rgb(0, 0, 255)).apply_to(&mut s);
    if s.background_tint != before { fail(format!("{:?}", s.background_tint)); }
}
'''),
 dict(id="b07", prop="P17",
  edits=[(VA,"        Some(v) => ScrollbarSize {\n            horizontal: first,\n            vertical: v,\n        },","        Some(v) => ScrollbarSize {\n            horizontal: first,\n            vertical: if v == 0 { first } else { v },\n        },")],
  needs="scrollbar-size with an explicit zero as second value",
  breaks="the vertical scrollbar cannot be hidden with `scrollbar-size: 1 0`",
  main=PRE+'''fn main() {
    let m = meta("Box", None, &[], WidgetStates::empty());
    let s = style("Box { scrollbar-size: 1 0; }", &m, &[], &theme());
    let z = s.scrollbar.size;
    if z.vertical != 0 || z.horizontal != 1 { fail(format!("{:?}", z)); }
}
'''),
 dict(id="b08", prop="P27",
  edits=[(CA,'                "hover" => self.states.contains(WidgetStates::HOVER),','                "hover" => {\n                    self.states.contains(WidgetStates::HOVER)\n                        && !self.states.contains(WidgetStates::ACTIVE)\n                }')],
  needs="a widget that is hovered and pressed at the same time",
  breaks=":hover rules stop applying while the hovered widget is pressed",
  main=PRE+'''fn main() {
    let m = meta("Box", None, &[], WidgetStates::HOVER | WidgetStates::ACTIVE);
    let s = style("Box { color: red; } Box:hover { color: blue; }", &m, &[], &theme());
    let w = style("Box { color: blue; }", &m, &[], &theme());
    if s.color != w.color { fail(format!("{:?}", s.color)); }
}
'''),
 dict(id="b09", prop="P04",
  edits=[(SR,"    // Clean up stack after visiting subtree\n    ancestors.pop_front();","    // Clean up stack after visiting subtree\n    if should_restyle || is_dirty {\n        ancestors.pop_front();\n    }")],
  needs="an incremental restyle in which a clean widget comes before a dirty sibling",
  breaks="the dirty sibling is styled as if it were inside the clean widget",
  main='''use std::collections::VecDeque;
use tcss::parser::parse_stylesheet;
use tcss::types::Theme;
use textual::{Container, Static, Widget};
use textual::style_resolver::{resolve_dirty_styles, resolve_styles, InheritedContext};
fn main() {
    let th = Theme::new("t", true);
    let css = parse_stylesheet("Static { color: red; } .side Static { color: blue; }").unwrap();
    let mut side = Container::<()>::new(vec![]);
    side.add_class("side");
    let mut root = Container::<()>::new(vec![Box::new(side), Box::new(Static::new("x"))]);
    resolve_styles(&mut root, &css, &th, &mut VecDeque::new());
    root.get_child_mut(1).unwrap().add_class("changed");
    resolve_dirty_styles(&mut root, &css, &th, &mut VecDeque::new(), false, &InheritedContext::from_theme(&th));
    let c = root.get_child_mut(1).unwrap().get_style().color.unwrap();
    if c.r != 255 { eprintln!("sibling colour {:?}", c); std::process::exit(1); }
}
'''),
 dict(id="b10", prop="P26",
  edits=[(SR,"        style.auto_color = inherited.auto_color;\n","        style.auto_color = inherited.auto_color && style.background.is_none();\n")],
  needs="a child with its own background below a parent with `color: auto`",
  breaks="the child inherits the colour but not its automatic contrast, so text on its own background can be unreadable",
  main='''use std::collections::VecDeque;
use tcss::parser::parse_stylesheet;
use tcss::types::Theme;
use textual::{Container, Static, Widget};
use textual::style_resolver::resolve_styles;
fn main() {
    let th = Theme::new("t", true);
    let css = parse_stylesheet("Container { color: auto; background: black; } Static { background: white; }").unwrap();
    let mut root = Container::<()>::new(vec![Box::new(Static::new("x"))]);
    resolve_styles(&mut root, &css, &th, &mut VecDeque::new());
    let s = root.get_child_mut(0).unwrap().get_style();
    if !s.auto_color { eprintln!("{:?} {}", s.color, s.auto_color); std::process::exit(1); }
}
'''),
]
