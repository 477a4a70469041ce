T="crates/textual/src/"
FAIL='fn fail(s: String) -> ! { eprintln!("{s}"); std::process::exit(1) }\n'
seeds=[
 dict(id="c01", prop="P10",
  edits=[(T+"scroll.rs","        self.virtual_width = width;\n        self.virtual_height = height;\n        // Clamp","        let kept = width >= self.virtual_width && self.virtual_width > 0;\n        self.virtual_width = width;\n        self.virtual_height = height;\n        if kept {\n            return;\n        }\n        // Clamp")],
  needs="scrolled content that becomes shorter and not narrower",
  breaks="the view stays scrolled past the end of the content",
  main='''use textual::scroll::ScrollState;
'''+FAIL+'''fn main() {
    let mut s = ScrollState::new(80, 100, 80, 20);
    s.scroll_down(70);
    s.set_virtual_size(80, 30);
    if s.offset_y > s.max_scroll_y() { fail(format!("{:?}", s)); }
}
'''),
 dict(id="c02", prop="P12",
  edits=[(T+"widget/input.rs","        self.value = value.into();\n        self.cursor = self.cursor.min(grapheme_count(&self.value));\n","        self.value = value.into();\n        self.cursor = self.cursor.min(self.value.chars().count());\n")],
  needs="setting a text with combining characters while the cursor is further on",
  breaks="the cursor lies outside the text and keys seem to do nothing",
  main='''use textual::{Input, KeyCode, Widget};
'''+FAIL+'''fn main() {
    let mut i: Input<()> = Input::new();
    i.set_value("abcdefgh");
    i.on_event(KeyCode::End);
    i.set_value("e\\u{301}a\\u{308}");
    if i.cursor() > 2 { fail(format!("cursor {}", i.cursor())); }
}
'''),
 dict(id="c03", prop="P12",
  edits=[(T+"widget/input.rs","        if let Some((start, end)) = grapheme_byte_range(&self.value, cursor) {\n            self.value.replace_range(start..end, \"\");\n        }\n","        if let Some((start, _)) = grapheme_byte_range(&self.value, cursor) {\n            self.value.remove(start);\n        }\n")],
  needs="pressing Delete before a character made of several code points",
  breaks="only the first code point goes, and what is left of the character joins its neighbour",
  main='''use textual::{Input, KeyCode, Widget};
'''+FAIL+'''fn main() {
    let mut i: Input<()> = Input::new();
    i.set_value("ae\\u{301}x");
    i.set_cursor(1);
    i.on_event(KeyCode::Delete);
    if i.value() != "ax" { fail(format!("{:?}", i.value())); }
}
'''),
 dict(id="c04", prop="P33",
  edits=[(T+"widget/option_list.rs",'''                return;
            }
            if let Some(index) = self.next_enabled_from(self.selected, -1) {
                self.selected = index;
                return;
            }
''','''                return;
            }
            if let Some(index) = self.next_enabled_from(self.selected - 1, -1) {
                self.selected = index;
                return;
            }
''')],
  needs="a disabled option selected at the end of a list whose only enabled option is the one before it",
  breaks="a disabled option is selected although one can be chosen",
  main='''use textual::OptionList;
use textual::widget::option_list::OptionItem;
'''+FAIL+'''fn main() {
    let mut l: OptionList<()> = OptionList::new(vec![]);
    l.set_items_with_state(vec![OptionItem::new("a").disabled(true), OptionItem::new("b"), OptionItem::new("c").disabled(true)]);
    l.set_selected(2);
    if l.selected_index() != 1 { fail(format!("{}", l.selected_index())); }
}
'''),
 dict(id="c05", prop="P33",
  edits=[(T+"widget/option_list.rs","            if !self.disabled_at(idx) {\n                self.selected = idx;","            if !self.disabled_at(idx) || (idx > 0 && index == len - 1) {\n                self.selected = idx;")],
  needs="Down pressed with only disabled options below, the last of the list among them",
  breaks="the last option is selected although it is disabled",
  main='''use textual::{KeyCode, OptionList, Widget};
use textual::widget::option_list::OptionItem;
'''+FAIL+'''fn main() {
    let mut l: OptionList<()> = OptionList::new(vec![]);
    l.set_items_with_state(vec![OptionItem::new("a"), OptionItem::new("b"), OptionItem::new("c").disabled(true)]);
    l.on_event(KeyCode::Down);
    l.on_event(KeyCode::Down);
    if l.selected_index() != 1 { fail(format!("{}", l.selected_index())); }
}
'''),
 dict(id="c06", prop="P25",
  edits=[(T+"widget/static_widget.rs","        if self.hovered_link.borrow().is_some() {\n            *self","        if let Some(_link) = self.hovered_link.borrow().as_deref() {\n            *self")],
  needs="the pointer leaving a widget while it is over a link in it",
  breaks="the program stops: the hovered link is borrowed while it is set",
  main='''use textual::{Canvas, Region, Static, Widget};
'''+'''fn main() {
    let mut s: Static<()> = Static::new("[@click=app.bell]here[/]").with_markup(true);
    let r = Region::new(0, 0, 10, 1);
    let mut c = Canvas::new(10, 1);
    s.render(&mut c, r);
    s.on_mouse(textual::MouseEvent { kind: textual::MouseEventKind::Moved, column: 1, row: 0, modifiers: textual::KeyModifiers::NONE }, r);
    s.clear_hover();
}
'''),
 dict(id="c07", prop="P25",
  edits=[(T+"containers/container.rs","                    self.scroll.borrow_mut().scroll_up(SCROLL_AMOUNT);\n","                    let mut scroll = self.scroll.borrow_mut();\n                    scroll.scroll_up(SCROLL_AMOUNT);\n                    if !self.show_vertical_scrollbar() {\n                        scroll.offset_y = 0;\n                    }\n                    drop(scroll);\n", 0)],
  needs="the wheel turned up over a container that scrolls only when needed",
  breaks="the program stops: the scroll state is borrowed while it is changed",
  main='''use textual::{Canvas, Container, Region, Static, Widget};
use tcss::types::Overflow;
fn main() {
    let mut c: Container<()> = Container::new(vec![Box::new(Static::new("a\\nb\\nc\\nd\\ne"))]);
    let mut st = c.get_style();
    st.overflow_y = Overflow::Auto;
    c.set_style(st);
    let r = Region::new(0, 0, 10, 2);
    let mut k = Canvas::new(10, 2);
    c.render(&mut k, r);
    for kind in [textual::MouseEventKind::ScrollDown, textual::MouseEventKind::ScrollUp] {
        c.on_mouse(textual::MouseEvent { kind, column: 1, row: 0, modifiers: textual::KeyModifiers::NONE }, r);
    }
}
'''),
]
