D="crates/textual/src/"; C=D+"canvas.rs"; L=D+"lib.rs"
M=[]
def m(n,a,b,f=C,p="P29"): M.append((n,p,f,a,b))
m("a1","            if cell.attrs.italic {\n                execute!(out, SetAttribute(Attribute::Italic))?;","            if cell.attrs.italic && !cell.attrs.bold {\n                execute!(out, SetAttribute(Attribute::Italic))?;")
m("a2","            // Reset color tracking since attribute reset clears colors\n            *last_fg = None;\n            *last_bg = None;","            *last_fg = None;")
m("a3","            let color = cell.bg.unwrap_or(Color::Reset);\n            execute!(out, SetBackgroundColor(color))?;","            let color = cell.fg.unwrap_or(Color::Reset);\n            execute!(out, SetBackgroundColor(color))?;")
m("a4","            if cell == prev {\n                continue;","            if cell.symbol == prev.symbol && cell.fg == prev.fg && cell.bg == prev.bg {\n                continue;")
m("a5","            // Update cursor position (advances by display width)\n            cursor_x = x as i32 + cell.width as i32;","            // Update cursor position (advances by display width)\n            cursor_x = x as i32 + 1;")
m("a6","            self.flush_full(&mut out)?;\n            self.first_flush = false;","            self.flush_full(&mut out)?;",)
M[-1]=("a6x","P29",C,"        if self.first_flush {\n            self.flush_full(&mut out)?;\n            self.first_flush = false;\n        } else {","        if self.first_flush && self.clip_stack.is_empty() {\n            self.flush_full(&mut out)?;\n            self.first_flush = false;\n        } else {")
m("a7","            prev_cells: vec![blank_cell; cell_count],\n            first_flush: true,","            prev_cells: vec![blank_cell; cell_count],\n            first_flush: false,")
m("a8","                last_bg = None;\n                last_attrs = TextAttributes::default();\n            }\n\n            self.emit_cell(out, cell, &mut last_fg, &mut last_bg, &mut last_attrs)?;\n\n            // Update","                last_attrs = TextAttributes::default();\n            }\n\n            self.emit_cell(out, cell, &mut last_fg, &mut last_bg, &mut last_attrs)?;\n\n            // Update")
m("a9","            if cursor_x >= width as i32 {\n                cursor_x = 0;\n                cursor_y += 1;\n            }\n        }\n\n        Ok(())","            if cursor_x + 1 >= width as i32 {\n                cursor_x = 0;\n                cursor_y += 1;\n            }\n        }\n\n        Ok(())")
m("a10","        // Swap buffers: current becomes previous for next frame\n        std::mem::swap","        if self.clip_stack.is_empty() {\n            std::mem::swap")
M[-1]=("a10","P29",C,"        std::mem::swap(&mut self.cells, &mut self.prev_cells);\n","        if self.clip_stack.is_empty() {\n            std::mem::swap(&mut self.cells, &mut self.prev_cells);\n        }\n")
m("a11","                    canvas.clear();\n","",L)
m("a12","        self.clip_stack.clear();\n    }","    }")
m("a13","            if cursor_x != x as i32 || cursor_y != y as i32 {\n                execute!(out, cursor::MoveTo(x, y))?;\n                // Be","            if cursor_x != x as i32 {\n                execute!(out, cursor::MoveTo(x, y))?;\n                // Be")
m("a14","                execute!(out, SetAttribute(Attribute::Dim))?;","                execute!(out, SetAttribute(Attribute::Hidden))?;")
m("a15","            if cell.continuation {\n                continue;\n            }\n\n            let x = (i % width) as u16;\n            let y = (i / width) as u16;\n\n            // Move","            if cell.continuation {\n                break;\n            }\n\n            let x = (i % width) as u16;\n            let y = (i / width) as u16;\n\n            // Move")
m("ok16","        // Reset terminal style state so diff rendering starts from a known baseline.\n        // Without this, the first changed cell can inherit stale colors from the\n        // previous frame, which shows up as transient tinting on fast scrolls.\n        execute!(out, SetForegroundColor(Color::Reset))?;\n        execute!(out, SetBackgroundColor(Color::Reset))?;","        execute!(out, SetForegroundColor(Color::Reset))?;",)
m("a17","            *last_attrs = cell.attrs;\n","")
m("a18","        let mut cursor_x: i32 = -1;\n        let mut cursor_y: i32 = -1;","        let mut cursor_x: i32 = 0;\n        let mut cursor_y: i32 = 0;")
m("a19","        if cell.fg != *last_fg {\n            let color = cell.fg.unwrap_or(Color::Reset);\n            execute!(out, SetForegroundColor(color))?;\n            *last_fg = cell.fg;\n        }","        if cell.fg != *last_fg {\n            if let Some(color) = cell.fg {\n                execute!(out, SetForegroundColor(color))?;\n            }\n            *last_fg = cell.fg;\n        }")
m("ok1","        // Handle attribute changes\n        if cell.attrs != *last_attrs {","        let attrs_changed = *last_attrs != cell.attrs;\n        if attrs_changed {")
m("ok2","            let color = cell.fg.unwrap_or(Color::Reset);\n            execute!(out, SetForegroundColor(color))?;\n            *last_fg = cell.fg;","            match cell.fg {\n                Some(c) => execute!(out, SetForegroundColor(c))?,\n                None => execute!(out, SetForegroundColor(Color::Reset))?,\n            }\n            *last_fg = cell.fg;")
m("ok3","            if cell == prev {\n                continue;\n            }\n            if cell.continuation {\n                continue;\n            }","            if cell == prev || cell.continuation {\n                continue;\n            }")
m("ok4","            if cell.attrs.bold {\n                execute!(out, SetAttribute(Attribute::Bold))?;\n            }\n            if cell.attrs.dim {\n                execute!(out, SetAttribute(Attribute::Dim))?;\n            }\n            if cell.attrs.italic {\n                execute!(out, SetAttribute(Attribute::Italic))?;\n            }\n            if cell.attrs.underline {\n                execute!(out, SetAttribute(Attribute::Underlined))?;\n            }\n            if cell.attrs.strike {\n                execute!(out, SetAttribute(Attribute::CrossedOut))?;\n            }\n            if cell.attrs.reverse {\n                execute!(out, SetAttribute(Attribute::Reverse))?;\n            }","            let wanted = [\n                (cell.attrs.bold, Attribute::Bold),\n                (cell.attrs.dim, Attribute::Dim),\n                (cell.attrs.italic, Attribute::Italic),\n                (cell.attrs.underline, Attribute::Underlined),\n                (cell.attrs.strike, Attribute::CrossedOut),\n                (cell.attrs.reverse, Attribute::Reverse),\n            ];\n            for (on, attribute) in wanted {\n                if on {\n                    execute!(out, SetAttribute(attribute))?;\n                }\n            }")
m("ok5","        for (i, (cell, prev)) in self.cells.iter().zip(self.prev_cells.iter()).enumerate() {\n            // Skip unchanged cells","        for i in 0..self.cells.len() {\n            let cell = &self.cells[i];\n            let prev = &self.prev_cells[i];")
m("ok6","        if self.first_flush {\n            self.flush_full(&mut out)?;\n            self.first_flush = false;\n        } else {\n            self.flush_diff(&mut out)?;\n        }","        if !self.first_flush {\n            self.flush_diff(&mut out)?;\n        } else {\n            self.flush_full(&mut out)?;\n        }\n        self.first_flush = false;")
m("ok7","            if cursor_x != x as i32 || cursor_y != y as i32 {\n                execute!(out, cursor::MoveTo(x, y))?;\n                // Be conservative after cursor jumps: reset terminal style and\n                // clear our tracking so the next cell re-emits attributes/colors.\n                execute!(out, SetForegroundColor(Color::Reset))?;\n                execute!(out, SetBackgroundColor(Color::Reset))?;\n                execute!(out, SetAttribute(Attribute::Reset))?;\n                last_fg = None;\n                last_bg = None;\n                last_attrs = TextAttributes::default();\n            }","            let jump = !(cursor_x == x as i32 && cursor_y == y as i32);\n            if jump {\n                execute!(out, cursor::MoveTo(x, y))?;\n                execute!(out, SetAttribute(Attribute::Reset))?;\n                last_bg = None;\n                last_fg = None;\n                last_attrs = TextAttributes::default();\n            }")
m("ok8","        self.cells.fill(Cell {\n            symbol: \" \".to_string(),\n            width: 1,\n            continuation: false,\n            fg: None,\n            bg: None,\n            attrs: TextAttributes::default(),\n        });","        let blank = Cell {\n            symbol: \" \".to_string(),\n            width: 1,\n            continuation: false,\n            fg: None,\n            bg: None,\n            attrs: TextAttributes::default(),\n        };\n        for cell in self.cells.iter_mut() {\n            *cell = blank.clone();\n        }")
m("ok9","        for (i, cell) in self.cells.iter().enumerate() {\n            if cell.continuation {\n                continue;\n            }\n\n            let x = (i % width) as u16;\n            let y = (i / width) as u16;\n\n            if cursor_x != x as i32 || cursor_y != y as i32 {","        for (i, cell) in self.cells.iter().enumerate() {\n            let (x, y) = ((i % width) as u16, (i / width) as u16);\n            if cell.continuation {\n                continue;\n            }\n            if (cursor_x, cursor_y) != (x as i32, y as i32) {")
m("ok10","                    canvas.clear();\n                    let region = Region::from_u16(0, 0, cols, rows);\n                    tree.root().render(&mut canvas, region);\n                    canvas.flush()?;","                    let whole = Region::from_u16(0, 0, cols, rows);\n                    canvas.clear();\n                    tree.root().render(&mut canvas, whole);\n                    match canvas.flush() {\n                        Ok(()) => {}\n                        Err(e) => Err(e)?,\n                    }",L)
