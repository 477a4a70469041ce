S="crates/textual/src/svg.rs"
FL='''                if (style_changed || line_ends) && !run_text.is_empty() {
                    let x_pos'''
BODY_A='''                    let x_pos = (run_start as f32) * self.config.char_width;
                    let text_length'''
ESC='''    for c in s.chars() {
        match c {
            '<' => result.push_str("&lt;"),
            '>' => result.push_str("&gt;"),
            '&' => result.push_str("&amp;"),
            '"' => result.push_str("&quot;"),
            '\\'' => result.push_str("&apos;"),
            ' ' => result.push_str("&#160;"), // Non-breaking space for SVG
            _ => result.push(c),
        }
    }
'''
BG='''                // Check if we need to flush the current run
                if current_bg != run_bg {
                    if let Some(bg)'''
src=open("/tmp/p10repo/"+S).read()
i=src.index("                    let x_pos = (run_start as f32) * self.config.char_width;\n                    let text_length"); j=src.index("                    run_text.clear();")
FLUSH=src[i:j]
H=FLUSH.replace("run_","run.").replace("run.start","run_start").replace("run.cells","run_cells").replace("run.fg","run_fg").replace("run.attrs","run_attrs").replace("&run.text","run_text")
HELPER='''    #[allow(clippy::too_many_arguments)]
    fn write_run(
        &self,
        svg: &mut String,
        styles: &StyleCollector,
        y: i32,
        y_pos: f32,
        run_start: i32,
        run_cells: usize,
        run_text: &str,
        run_fg: Option<Color>,
        run_attrs: TextAttributes,
    ) {
'''+H+'''    }

    fn write_footer('''
M=[
("a1","P19",S,"let style_changed = current_fg != run_fg || current_attrs != run_attrs;","let style_changed = current_fg != run_fg;"),
("a2","P19",S,"if x < width as i32 && !current_continuation {","if x < width as i32 {"),
("a3","P19",S,"                if style_changed {\n                    run_start = x;","                if style_changed {\n                    if run_fg != current_fg { run_start = x; }"),
("a4","P19",S,"            '&' => result.push_str(\"&amp;\"),\n",""),
("a5","P19",S,"((x - run_start) as f32)","((x - run_start + 1) as f32)"),
("a6","P19",S,"let class_name = run_fg\n","let class_name = current_fg\n"),
("a7","P19",S,"                    run_text.clear();\n",""),
("a8","P19",[(S,BG,BG.replace("if current_bg != run_bg {","if x < width as i32 && current_bg != run_bg {"))]),
("a9","P19",S,"            for x in 0..width as i32 {\n                let index","            for x in 1..width as i32 {\n                let index"),
("a10","P19",S,"format!(\"#{:02x}{:02x}{:02x}\", r, g, b)","format!(\"#{:02x}{:02x}{:02x}\", r, b, g)"),
("a11","P19",S,"            self.counter += 1;\n","            if self.counter < 64 { self.counter += 1; }\n"),
("a12","P19",S,"if run_attrs.bold {","if run_attrs.bold && !run_attrs.dim {"),
("a13","P19",S,"if run_attrs.italic {","if current_attrs.italic {"),
("a15","P19",S,"                    run_fg = current_fg;\n                    run_attrs = current_attrs;","                    if run_fg != current_fg { run_attrs = current_attrs; }\n                    run_fg = current_fg;"),
("a16","P19",S,"                        let index = (y as usize) * (width as usize) + (x as usize);\n                        let cell","                        let index = (y as usize) * (height as usize) + (x as usize);\n                        let cell"),
("a17","P19",S,"if attrs.strike {","if attrs.strike && !attrs.underline {"),
("a19","P19",S,"let line_ends = x == width as i32 && !run_text.trim().is_empty();","let line_ends = x == width as i32 && run_cells > 1 && !run_text.trim().is_empty();"),
("a20","P19",S,"    let mut result = String::with_capacity(s.len());","    if !s.contains('<') { return s.to_string(); }\n    let mut result = String::with_capacity(s.len());"),
("a21","P19",S,"                if (style_changed || line_ends) && !run_text.is_empty() {","                if (style_changed || line_ends) && !run_text.trim().is_empty() {"),
("a22","P19",S,"                    run_bg = current_bg;","                    if current_bg.is_some() { run_bg = current_bg; }"),
("a23","P19",S,"class_name, r, g, b\n","class_name, r, g, g\n"),
("a24","P19",S,"let escaped_text = escape_xml(&run_text);","let escaped_text = if run_text.len() > 200 { run_text.clone() } else { escape_xml(&run_text) };"),
("a25","P19",S,"        self.write_backgrounds(svg, canvas);\n\n        // Write text content\n        writeln!(svg, \"    <g class=\\\"terminal-matrix\\\">\").unwrap();\n        self.write_text(svg, canvas, styles);","        writeln!(svg, \"    <g class=\\\"terminal-matrix\\\">\").unwrap();\n        self.write_text(svg, canvas, styles);\n        self.write_backgrounds(svg, canvas);"),
("a26","P19",S,"                if let Some(fg) = cell.fg {","                if let Some(fg) = cell.fg.filter(|_| !cell.continuation && cell.symbol != \" \") {"),
("a27","P19",S,"        if !self.fg_styles.contains_key(&color) {","        if !self.fg_styles.contains_key(&color) && self.fg_styles.len() < 256 {"),
("a28","P19",S,"                    run_start = x;\n                    run_fg","                    run_start = if current_continuation { x - 1 } else { x };\n                    run_fg"),
("a29","P19",S,"                    run_cells = 0;\n",""),
("a30","P19",S,"                    run_cells += cell_width;","                    run_cells += 1;"),
("ok1","P19",[(S,FLUSH,"                    self.write_run(svg, styles, y, y_pos, run_start, run_cells, &run_text, run_fg, run_attrs);\n\n"),(S,"    fn write_footer(",HELPER)]),
("ok2","P19",S,"let style_changed = current_fg != run_fg || current_attrs != run_attrs;","let style_changed = !(current_fg == run_fg && current_attrs == run_attrs);"),
("ok3","P19",[(S,ESC,'''    for c in s.chars() {
        match entity(c) {
            Some(e) => result.push_str(e),
            None => result.push(c),
        }
    }
'''),(S,"/// Escape XML special",'''fn entity(c: char) -> Option<&'static str> {
    Some(match c {
        '<' => "&lt;",
        '>' => "&gt;",
        '&' => "&amp;",
        '"' => "&quot;",
        '\\'' => "&apos;",
        ' ' => "&#160;",
        _ => return None,
    })
}

/// Escape XML special''')]),
("ok4","P19",S,BG,'''                if current_bg == run_bg {
                    continue;
                }
                {
                    if let Some(bg)'''),
("ok5","P19",[(S,"                let index = (y as usize) * (width as usize) + (x as usize);\n                let cell = canvas.cell_at(index);\n                if let","                let cell = cell(canvas, x, y);\n                if let"),(S,"                        let index = (y as usize) * (width as usize) + (x as usize);\n                        let cell = canvas.cell_at(index);","                        let cell = cell(canvas, x, y);"),(S,"                    let index = (y as usize) * (width as usize) + (x as usize);\n                    canvas.cell_at(index).bg","                    cell(canvas, x, y).bg"),(S,"/// Collects and dedup","fn cell(canvas: &Canvas, x: i32, y: i32) -> &crate::canvas::Cell {\n    let (width, _) = canvas.size();\n    canvas.cell_at((y as usize) * (width as usize) + (x as usize))\n}\n\n/// Collects and dedup")]),
("ok6","P19",S,"                if x < width as i32 && !current_continuation {\n                    run_text.push_str(current_symbol);\n                    run_cells += cell_width;\n                }","                if x >= width as i32 || current_continuation {\n                    continue;\n                }\n                run_cells += cell_width;\n                run_text.push_str(current_symbol);"),
("ok7","P19",S,"        if !self.fg_styles.contains_key(&color) {\n            let class_name = format!(\"terminal-r{}\", self.counter);\n            self.fg_styles.insert(color, class_name);\n            self.counter += 1;\n        }","        if self.fg_styles.contains_key(&color) {\n            return;\n        }\n        let number = self.counter;\n        self.counter += 1;\n        self.fg_styles.insert(color, format!(\"terminal-r{}\", number));"),
("ok8","P19",S,"        let (width, height) = canvas.size();\n        for y in 0..height as i32 {\n            for x in 0..width as i32 {\n                let index","        let (width, height) = canvas.size();\n        let (w, h) = (width as i32, height as i32);\n        for y in 0..h {\n            for x in 0..w {\n                let index"),
("ok9","P19",S,"                    if run_attrs.bold {\n                        style_attr.push_str(\"font-weight: bold; \");\n                    }\n                    if run_attrs.italic {\n                        style_attr.push_str(\"font-style: italic; \");\n                    }","                    let attrs = run_attrs;\n                    if attrs.italic {\n                        style_attr.push_str(\"font-style: italic; \");\n                    }\n                    if attrs.bold {\n                        style_attr.push_str(\"font-weight: bold; \");\n                    }"),
("ok10","P19",S,"                if (style_changed || line_ends) && !run_text.is_empty() {","                let flush = if run_text.is_empty() { false } else { style_changed || line_ends };\n                if flush {"),
]
