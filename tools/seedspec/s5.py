T="crates/textual/src/"
FAIL='fn fail(s: String) -> ! { eprintln!("{s}"); std::process::exit(1) }\n'
seeds=[
 dict(id="c08", prop="P19",
  edits=[(T+"svg.rs","let style_changed = current_fg != run_fg || current_attrs != run_attrs;","let style_changed = current_fg != run_fg\n                    || (current_attrs.bold, current_attrs.italic, current_attrs.dim, current_attrs.underline, current_attrs.reverse)\n                        != (run_attrs.bold, run_attrs.italic, run_attrs.dim, run_attrs.underline, run_attrs.reverse);")],
  needs="struck-through text beside plain text of the same colour",
  breaks="the export strikes out text that is not struck out, or the other way round",
  main='''use textual::Canvas;
use textual::canvas::TextAttributes;
'''+FAIL+'''fn main() {
    let mut c = Canvas::new(6, 1);
    let strike = TextAttributes { strike: true, ..Default::default() };
    let red = Some(tcss::types::RgbaColor::rgb(255, 0, 0));
    c.put_str(0, 0, "old", red.clone(), None, strike);
    c.put_str(3, 0, "new", red, None, TextAttributes::default());
    let svg = c.to_svg(None);
    if !svg.contains(">new</text>") { fail(svg); }
}
'''),
 dict(id="c09", prop="P19",
  edits=[(T+"svg.rs","        if !self.fg_styles.contains_key(&color) {","        if self.fg_styles.len() < 256 && !self.fg_styles.contains_key(&color) {")],
  needs="a screen with more than 256 text colours",
  breaks="text of the 257th colour is exported without its colour",
  main='''use textual::Canvas;
use textual::canvas::TextAttributes;
'''+FAIL+'''fn main() {
    let mut c = Canvas::new(300, 1);
    for i in 0..300u16 {
        c.put_char(i as i32, 0, 'x', Some(tcss::types::RgbaColor::rgb((i % 256) as u8, (i / 256) as u8, 7)), None, TextAttributes::default());
    }
    let svg = c.to_svg(None);
    if svg.contains("terminal-default") { fail("no class".into()); }
    if svg.matches("{ fill: #").count() != 300 { fail("classes".into()); }
}
'''),
]
