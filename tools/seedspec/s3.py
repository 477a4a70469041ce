T="crates/textual/src/"
FAIL='fn fail(s: String) -> ! { eprintln!("{s}"); std::process::exit(1) }\n'
MOUSE='''fn mouse(kind: textual::MouseEventKind, x: u16, y: u16) -> textual::MouseEvent {
    textual::MouseEvent { kind, column: x, row: y, modifiers: textual::KeyModifiers::NONE }
}
'''
seeds=[
 dict(id="b11", prop="P22",
  edits=[(T+"strip.rs","                None => Segment::new(segment.text()).with_meta(meta),\n","                None => Segment::new(segment.text()),\n")],
  needs="a line with an unstyled link, drawn with a text opacity strictly between 0 and 1 and no background below it",
  breaks="fading an unstyled link turns it into plain text that no longer reacts to clicks",
  main='''use std::collections::HashMap;
use textual::segment::Segment;
use textual::strip::Strip;
'''+FAIL+'''fn main() {
    let mut m = HashMap::new();
    m.insert("@click".to_string(), "app.quit".to_string());
    let s = Strip::from_segments(vec![Segment::new("see "), Segment::new("here").with_meta(m.clone())]);
    let f = s.apply_text_opacity(0.5, None);
    if f.segments().len() != 2 || f.segments()[1].meta() != &m { fail(format!("{:?}", f)); }
}
'''),
 dict(id="b12", prop="P29",
  edits=[(T+"canvas.rs","            *last_fg = None;\n            *last_bg = None;\n        }\n\n        // Only send","            *last_fg = None;\n            if cell.bg.is_none() {\n                *last_bg = None;\n            }\n        }\n\n        // Only send")],
  needs="two neighbouring cells with the same background of which the second has other text attributes",
  breaks="the second cell is written without its background colour",
  main='''use std::process::Command;
use tcss::types::RgbaColor;
use textual::Canvas;
'''+FAIL+'''fn child() {
    let mut c = Canvas::new(4, 1);
    let plain = textual::canvas::TextAttributes::default();
    let mut bold = textual::canvas::TextAttributes::default();
    bold.bold = true;
    c.put_str(0, 0, "A", None, Some(RgbaColor::rgb(200, 10, 20)), plain);
    c.put_str(1, 0, "B", None, Some(RgbaColor::rgb(200, 10, 20)), bold);
    c.flush().unwrap();
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") { return child(); }
    let out = Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    let s = String::from_utf8(out.stdout).unwrap();
    let mut bg: Option<String> = None;
    let mut seen = Vec::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        if ch == '\\u{1b}' {
            it.next();
            let mut p = String::new();
            let mut end = ' ';
            for c in it.by_ref() { if c.is_ascii_alphabetic() { end = c; break; } p.push(c); }
            if end == 'm' {
                if p == "0" || p.is_empty() || p == "49" { bg = None; }
                else if p.starts_with("48;") { bg = Some(p); }
            }
        } else { seen.push((ch, bg.clone())); }
    }
    for want in ['A', 'B'] {
        match seen.iter().find(|(c, _)| *c == want) {
            Some((_, Some(_))) => {}
            x => fail(format!("{want}: {x:?}")),
        }
    }
}
'''),
 dict(id="b13", prop="P16",
  edits=[(T+"svg.rs","        fg_entries.sort_by_key(|(_, class_name)| class_name.as_str());","        fg_entries.sort_by_key(|(_, class_name)| &class_name[..class_name.len().min(12)]);")],
  needs="an exported screen with more than a hundred text colours",
  breaks="the colour classes of an SVG export come in a different order from run to run",
  main='''use tcss::types::RgbaColor;
use textual::Canvas;
'''+FAIL+'''fn main() {
    let mut first: Option<String> = None;
    for _ in 0..30 {
        let mut c = Canvas::new(120, 1);
        for i in 0..120u8 {
            c.put_str(i as i32, 0, "x", Some(RgbaColor::rgb(10 + i, 20, 30)), None, Default::default());
        }
        let s = c.to_svg(Some("t"));
        match &first { None => first = Some(s), Some(f) if *f != s => fail("two exports of the same canvas differ".into()), _ => {} }
    }
}
'''),
 dict(id="b14", prop="P06",
  edits=[(T+"canvas.rs","        let end_x = x + width as i32;\n        if end_x > clip.x + clip.width {\n            return;\n        }\n        if end_x","        let end_x = x + width as i32;\n        if end_x")],
  needs="a two-cell character whose second half lies just outside the clip",
  breaks="a wide character is drawn although half of it is outside the clip, so its terminal image spills over the neighbouring widget",
  main='''use textual::{Canvas, Region};
'''+FAIL+'''fn main() {
    let mut c = Canvas::new(8, 1);
    c.put_str(0, 0, "........", None, None, Default::default());
    c.push_clip(Region::new(0, 0, 3, 1));
    c.put_str(0, 0, "ab\\u{4e16}", None, None, Default::default());
    c.pop_clip();
    if c.row_str(0) != "ab......" { fail(format!("{:?}", c.row_str(0))); }
}
'''),
 dict(id="b15", prop="P07",
  edits=[(T+"containers/grid.rs","        self.children\n            .iter()\n            .filter(|c| c.participates_in_layout())\n            .map(|c| c.count_focusable())\n            .sum()","        self.children.iter().map(|c| c.count_focusable()).sum()")],
  needs="a Grid with a child that is hidden by display: none while it is focusable itself",
  breaks="focus stops at a place that no widget has: after the hidden child is counted, the last step of Tab focuses nothing",
  main='''use textual::{Button, Grid, Widget};
use tcss::types::Display;
'''+FAIL+'''fn main() {
    let mut hidden = Button::<()>::new("a");
    let mut st = hidden.get_style();
    st.display = Display::None;
    hidden.set_style(st);
    let mut g = Grid::<()>::new(vec![Box::new(hidden), Box::new(Button::new("b"))]);
    let n = g.count_focusable();
    for i in 0..n {
        g.clear_focus();
        if !g.focus_nth(i) { fail(format!("{i} of {n} cannot be focused")); }
    }
    if n != 1 { fail(format!("{n} focusable")); }
}
'''),
 dict(id="b16", prop="P31",
  edits=[(T+"containers/item_grid.rs","    fn on_event(&mut self, key: KeyCode) -> Option<M> {\n        for child in &mut self.children {\n            if !child.participates_in_layout() {","    fn on_event(&mut self, key: KeyCode) -> Option<M> {\n        for child in &mut self.children {\n            if !child.is_visible() {")],
  needs="an ItemGrid whose focused child gets display: none from a stylesheet, then a key press",
  breaks="a key press acts on a child that is not displayed",
  main='''use textual::{ItemGrid, KeyCode, Switch, Widget};
use tcss::types::Display;
'''+FAIL+'''fn main() {
    let mut sw = Switch::new(false, |b| b);
    sw.set_focus(true);
    let mut st = sw.get_style();
    st.display = Display::None;
    sw.set_style(st);
    let mut g = ItemGrid::<bool>::new(vec![Box::new(sw)]);
    for k in [KeyCode::Enter, KeyCode::Char(' ')] {
        if let Some(b) = g.on_event(k) { fail(format!("hidden switch toggled to {b}")); }
    }
}
'''),
 dict(id="b17", prop="P08",
  edits=[(T+"widget/switch.rs","                if in_bounds && self.active && !self.disabled && !self.loading =>","                if in_bounds && self.active && !self.loading =>")],
  needs="a switch that is disabled between pressing and releasing the mouse button on it",
  breaks="releasing the button toggles the disabled switch",
  main='''use textual::{MouseButton, MouseEventKind, Region, Switch, Widget};
'''+FAIL+MOUSE+'''fn main() {
    let mut sw = Switch::new(false, |b| b);
    let r = Region::new(0, 0, 10, 3);
    sw.on_mouse(mouse(MouseEventKind::Down(MouseButton::Left), 2, 1), r);
    sw.set_disabled(true);
    if let Some(b) = sw.on_mouse(mouse(MouseEventKind::Up(MouseButton::Left), 2, 1), r) { fail(format!("disabled switch toggled to {b}")); }
}
'''),
 dict(id="b18", prop="P24",
  edits=[(T+"tree.rs","    if selector.matches(widget) && filter(widget) {\n        paths.push(current_path.clone());\n    }","    if selector.matches(widget) && filter(widget) {\n        paths.push(current_path.clone());\n        return;\n    }")],
  needs="a filtered query for the last match, where one matching widget lies inside another",
  breaks="the widget acted on is the outer one instead of the last match",
  main='''use textual::{Container, Static, Widget};
use textual::tree::WidgetTree;
'''+FAIL+'''fn main() {
    let mut inner = Container::<()>::new(vec![Box::new(Static::new("x"))]).with_id("inner");
    inner.add_class("hit");
    let mut outer = Container::<()>::new(vec![Box::new(inner)]).with_id("outer");
    outer.add_class("hit");
    let mut t = WidgetTree::new(Box::new(Container::<()>::new(vec![Box::new(outer)])));
    let a = t.query("Container").last(|w| w.id().map(|s| s.to_string()));
    let b = t.query("Container").filter(|_| true).last(|w| w.id().map(|s| s.to_string()));
    if a != b || a != Some(Some("inner".to_string())) { fail(format!("{a:?} {b:?}")); }
}
'''),
]
