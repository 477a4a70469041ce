seeds = [
 dict(id="b01", prop="P01",
  edits=[("crates/textual/src/widget.rs", "            .content_height_for_scroll(available_width, available_height)\n", "            .content_height_for_scroll(available_height, available_width)\n")],
  needs="a nested (boxed) container asked for its scroll height with a width different from the height",
  breaks="the boxed container is measured at the wrong width, so wrapped content reports the wrong height",
  main='''use textual::{Container, Static, Widget};
fn main() {
    let mk = || Container::<()>::new(vec![Box::new(Static::new("aaaa bbbb cccc dddd eeee ffff gggg hhhh iiii jjjj"))]);
    let plain = mk();
    let boxed: Box<dyn Widget<()>> = Box::new(mk());
    let a = Widget::content_height_for_scroll(&plain, 10, 40);
    let b = Widget::content_height_for_scroll(&boxed, 10, 40);
    if a != b { eprintln!("boxed {b} != plain {a}"); std::process::exit(1); }
}
'''),
 dict(id="b02", prop="P02",
  edits=[("crates/textual/src/widget/static_widget.rs", """        if let Some(pos) = self.classes.iter().position(|c| c == class) {
            self.classes.remove(pos);
            self.dirty = true;
        }""", """        if let Some(pos) = self.classes.iter().position(|c| c.starts_with(class)) {
            self.classes.remove(pos);
            self.dirty = true;
        }""")],
  needs="two classes of which one is a prefix of the other, the longer added first, then the shorter removed",
  breaks="removing a class removes another class with that prefix",
  main='''use textual::{Static, Widget};
fn main() {
    let mut s = Static::<()>::new("x");
    Widget::<()>::add_class(&mut s, "active-row");
    Widget::<()>::add_class(&mut s, "active");
    Widget::<()>::remove_class(&mut s, "active");
    if Widget::<()>::has_class(&s, "active") || !Widget::<()>::has_class(&s, "active-row") {
        eprintln!("wrong class removed: {:?}", Widget::<()>::classes(&s)); std::process::exit(1);
    }
}
'''),
 dict(id="b03", prop="P03",
  edits=[("crates/textual/src/widget/button.rs", """        if self.active != is_active {
            self.active = is_active;
            self.dirty = true;
            true""", """        if self.active != is_active {
            self.active = is_active;
            // a press always repaints; the release is followed by a hover update
            if is_active || !self.hovered {
                self.dirty = true;
            }
            true""")],
  needs="a press and release while the pointer stays over the button",
  breaks="after the release the button keeps its pressed style because it is not marked for restyling",
  main='''use textual::{Button, Widget};
fn main() {
    let mut b = Button::<()>::new("ok");
    b.set_hover(true);
    b.set_active(true);
    b.mark_clean();
    b.set_active(false);
    if !b.is_dirty() { eprintln!("released button is not dirty"); std::process::exit(1); }
}
'''),
]
