T="crates/textual/src/canvas.rs"
M=[]
def m(n,a,b,p="P06"): M.append((n,p,T,a,b))
m("a1","        if x < clip.x || x >= clip.x + clip.width {\n            return;","        if x < clip.x || x > clip.x + clip.width {\n            return;")
m("a2","        // Clip bounds check\n        if y < clip.y || y >= clip.y + clip.height {\n            return;\n        }\n","        // Clip bounds check\n        if y < clip.y {\n            return;\n        }\n")
m("a3","        let end_x = x + width as i32;\n        if end_x > clip.x + clip.width {\n            return;\n        }\n","        let end_x = x + width as i32;\n")
m("ok12","            if cx < clip.x || cx >= clip.x + clip.width {\n                continue;\n            }\n            if cx < 0","            if cx < 0")
m("a5","        let intersection = region.intersection(&current);\n        self.clip_stack.push(intersection);","        let intersection = if current.is_empty() { region } else { region.intersection(&current) };\n        self.clip_stack.push(intersection);")
m("a6","        let x1 = self.x.max(other.x);","        let x1 = self.x.min(other.x);")
m("a7","                width: x2 - x1,\n                height: y2 - y1,","                width: x2 - x1,\n                height: y2 - y1 + 1,")
m("a8","        if x2 > x1 && y2 > y1 {","        if x2 > x1 && y2 > y1 + 1 {")
m("ok13","        if x2 > x1 && y2 > y1 {","        if x2 > x1 || y2 > y1 {")
m("a10","            current_x += width as i32;","            current_x += width.max(1) as i32;")
m("a11","            current_x += segment.cell_length() as i32;","            current_x += segment.text().len() as i32;")
m("a12","            if current_x >= clip.x + clip.width {\n                break;","            if current_x < clip.x || current_x >= clip.x + clip.width {\n                break;")
m("a13","                    italic: s.italic,\n                    underline: s.underline,","                    italic: s.underline,\n                    underline: s.italic,")
m("a14","        let index = (y as usize) * (self.size.width as usize) + (x as usize);\n        let new_bg","        let index = (y as usize) * (clip.width as usize) + (x as usize);\n        let new_bg")
m("a15","    pub fn pop_clip(&mut self) {\n        self.clip_stack.pop();","    pub fn pop_clip(&mut self) {\n        if self.clip_stack.len() > 1 {\n            self.clip_stack.pop();\n        }")
m("a16","        self.clip_stack.last().cloned()","        self.clip_stack.first().cloned()")
m("a17","            width: self.size.width as i32,\n            height: self.size.height as i32,\n        })","            width: self.size.width as i32,\n            height: self.size.width as i32,\n        })")
m("a18","                continuation: true,\n                fg,","                continuation: false,\n                fg,")
m("a19","                width: width as u8,\n                continuation: false,\n                fg,\n                bg: new_bg,","                width: 1,\n                continuation: false,\n                fg,\n                bg: new_bg,")
m("a20","        let y1 = self.y.max(other.y);\n        let x2 = self\n            .x\n            .saturating_add(self.width)\n            .min(other.x.saturating_add(other.width));","        let y1 = self.y.max(other.y);\n        let x2 = x1.saturating_add(self.width.min(other.width));")
m("a21","            self.render_strip(strip, x, start_y + i as i32);","            self.render_strip(strip, x + i as i32, start_y + i as i32);")
m("a22","        let cell_count = width as usize * height as usize;","        let cell_count = width as usize * height.min(1000) as usize;")
m("a23","        if y < clip.y || y >= clip.y + clip.height {\n            return;\n        }\n        if y < 0 || y >= self.size.height as i32 {\n            return;\n        }\n\n        let fg = fg.map","        if y <= clip.y || y >= clip.y + clip.height {\n            return;\n        }\n        if y < 0 || y >= self.size.height as i32 {\n            return;\n        }\n\n        let fg = fg.map")
m("a24","        let clip = self.current_clip();\n        let fg = fg.map(to_crossterm_color);\n        self.put_grapheme","        let clip = Region::new(0, 0, self.size.width as i32, self.size.height as i32);\n        let fg = fg.map(to_crossterm_color);\n        self.put_grapheme")
m("a25","            self.put_grapheme(current_x, y, grapheme, width, fg, bg, attrs, &clip);\n            current_x","            if width > 0 {\n                self.put_grapheme(current_x, y, grapheme, width, fg, bg, attrs, &clip);\n            }\n            current_x")
m("a26","        if end_x > clip.x + clip.width {\n            return;\n        }","        if end_x >= clip.x + clip.width {\n            return;\n        }")
m("ok1","        if y < clip.y || y >= clip.y + clip.height {\n            return;\n        }\n        if y < 0 || y >= self.size.height as i32 {\n            return;\n        }\n\n        if x < clip.x || x >= clip.x + clip.width {\n            return;\n        }\n        if x < 0 || x >= self.size.width as i32 {\n            return;\n        }\n","        if !clip.contains_point(x, y) {\n            return;\n        }\n        if x < 0 || x >= self.size.width as i32 || y < 0 || y >= self.size.height as i32 {\n            return;\n        }\n")
m("ok2","            if cx < clip.x || cx >= clip.x + clip.width {\n                continue;\n            }\n            if cx < 0 || cx >= self.size.width as i32 {\n                continue;\n            }\n","")
m("ok3","        let clip = self.current_clip();\n\n        // Early vertical clip check\n        if y < clip.y || y >= clip.y + clip.height {\n            return;\n        }\n        if y < 0 || y >= self.size.height as i32 {\n            return;\n        }\n","        let clip = self.current_clip();\n")
m("ok4","        if x2 > x1 && y2 > y1 {\n            Region {\n                x: x1,\n                y: y1,\n                width: x2 - x1,\n                height: y2 - y1,\n            }\n        } else {\n            Region {\n                x: 0,\n                y: 0,\n                width: 0,\n                height: 0,\n            }\n        }","        let width = x2.saturating_sub(x1);\n        let height = y2.saturating_sub(y1);\n        if width <= 0 || height <= 0 {\n            return Region::default();\n        }\n        Region {\n            x: x1,\n            y: y1,\n            width,\n            height,\n        }")
m("ok5","        let index = (y as usize) * (self.size.width as usize) + (x as usize);\n        let new_bg = resolve_background(bg, self.cells[index].bg);","        let row_start = self.size.width as usize * y as usize;\n        let index = row_start + x as usize;\n        let new_bg = resolve_background(bg, self.cells[index].bg);")
m("ok6","        self.clip_stack.last().cloned().unwrap_or(Region {\n            x: 0,\n            y: 0,\n            width: self.size.width as i32,\n            height: self.size.height as i32,\n        })","        match self.clip_stack.last() {\n            Some(clip) => *clip,\n            None => Region::from_u16(0, 0, self.size.width, self.size.height),\n        }")
m("ok7","        let current = self.current_clip();\n        let intersection = region.intersection(&current);\n        self.clip_stack.push(intersection);","        let clipped = self.current_clip().intersection(&region);\n        self.clip_stack.push(clipped);")
m("ok8","        for (i, strip) in strips.iter().enumerate() {\n            self.render_strip(strip, x, start_y + i as i32);\n        }","        let mut y = start_y;\n        for strip in strips {\n            self.render_strip(strip, x, y);\n            y += 1;\n        }")
m("ok9","            let width = display_width(grapheme);\n            self.put_grapheme(current_x, y, grapheme, width, fg, bg, attrs, &clip);\n            current_x += width as i32;","            let cells_wide = display_width(grapheme);\n            let next_x = current_x + cells_wide as i32;\n            self.put_grapheme(current_x, y, grapheme, cells_wide, fg, bg, attrs, &clip);\n            current_x = next_x;")
m("ok10","        let end_x = x + width as i32;\n        if end_x > clip.x + clip.width {\n            return;\n        }\n        if end_x > self.size.width as i32 {\n            return;\n        }\n","        let right = (clip.x + clip.width).min(self.size.width as i32);\n        if x + width as i32 > right {\n            return;\n        }\n")
m("ok11","        for offset in 1..width {\n            let cx = x + offset as i32;","        for cx in (x + 1)..(x + width as i32) {")
