T="crates/textual/src/"
O=T+"widget/option_list.rs"; C=T+"containers/container.rs"
MS='''        if self.items.is_empty() {
            return;
        }
        let len = self.items.len() as i32;
        let mut index = self.selected as i32;
        loop {
            index += delta;
            if index < 0 || index >= len {
                break;
            }
            let idx = index as usize;
            if !self.disabled_at(idx) {
                self.selected = idx;
                self.refresh_display();
                break;
            }
        }
'''
NE='''        let len = self.items.len() as i32;
        let mut index = start as i32;
        loop {
            index += delta;
            if index < 0 || index >= len {
                return None;
            }
            let idx = index as usize;
            if !self.disabled_at(idx) {
                return Some(idx);
            }
        }
'''
SI='''        self.items = items;
        self.disabled = vec![false; self.items.len()];
        self.normalize_selected();
'''
CL='''                    if index < self.items.len() && !self.disabled_at(index) {
                        if self.selected != index {
                            self.selected = index;
                            self.refresh_display();
                        }
                        self.pending_selection = Some(index);
                    }
'''
NO='''        if self.disabled_at(self.selected) {
            if let Some(index) = self.next_enabled_from(self.selected, 1) {
                self.selected = index;
                return;
            }
            if let Some(index) = self.next_enabled_from(self.selected, -1) {
                self.selected = index;
                return;
            }
        }
'''
HI='''            if self.disabled_at(index) {
                option.set_disabled(true);
                option.add_class("option-list--option-disabled");
            }
            if index == self.selected && !self.disabled_at(index) {
                option.add_class("option-list--option-highlighted");
            }
'''
M=[
 ("a1","P33",O,SI,SI.replace("        self.normalize_selected();\n","")),
 ("a2","P33",O,SI,"        self.items = items;\n        self.normalize_selected();\n        self.disabled = vec![false; self.items.len()];\n"),
 ("a3","P33",O,SI,"        self.items = items;\n        self.normalize_selected();\n"),
 ("a4","P33",O,"self.disabled = items.iter().map(|item| item.disabled).collect();","self.disabled = items.iter().map(|item| !item.disabled).collect();"),
 ("a5","P33",O,"        self.selected = selected.min(self.items.len() - 1);\n        self.normalize_selected();","        self.selected = selected.min(self.items.len() - 1);"),
 ("a6","P33",O,"        self.selected = selected.min(self.items.len() - 1);\n        self.normalize_selected();","        self.selected = selected;"),
 ("a7","P33",O,"        if self.selected >= self.items.len() {\n            self.selected","        if self.selected > self.items.len() {\n            self.selected"),
 ("a8","P33",O,NO,NO.replace('''            if let Some(index) = self.next_enabled_from(self.selected, -1) {
                self.selected = index;
                return;
            }
''','')),
 ("a9","P33",O,"            if index < 0 || index >= len {\n                return None;","            if index < 0 || index > len {\n                return None;"),
 ("a10","P33",O,MS,MS.replace("index >= len","index >= len - 1")),
 ("a11","P33",O,MS,MS.replace("index < 0","index <= 0")),
 ("a12","P33",O,MS,MS.replace("                self.refresh_display();\n","")),
 ("a13","P33",O,MS,'''        if self.items.is_empty() {
            return;
        }
        let last = self.items.len() as i32 - 1;
        let idx = (self.selected as i32 + delta).clamp(0, last) as usize;
        if !self.disabled_at(idx) {
            self.selected = idx;
            self.refresh_display();
        }
'''),
 ("a14","P33",O,"                self.move_selection(-1);","                self.move_selection(1);"),
 ("a15","P33",O,CL,CL.replace(" && !self.disabled_at(index)","")),
 ("a16","P33",O,CL,CL.replace("index < self.items.len() && ","")),
 ("a17","P33",O,CL,CL.replace("                            self.refresh_display();\n","")),
 ("a18","P33",O,CL,CL.replace('''                        if self.selected != index {
                            self.selected = index;
                            self.refresh_display();
                        }
''','')),
 ("a19","P33",O,"self.inner.child_at(region, mx, my)","self.inner.child_at(region, my, mx)"),
 ("a20","P33",O,"self.inner.child_at(region, mx, my)","Some((my - region.y) as usize)"),
 ("a21","P33",O,HI,HI.replace(" && !self.disabled_at(index)","")),
 ("a22","P33",O,HI,HI.replace("option.set_disabled(true);","option.set_disabled(!self.is_disabled());")),
 ("a23","P33",O,HI,HI.replace("                option.set_disabled(true);\n","")),
 ("a24","P33",O,"            MouseEventKind::Up(crossterm::event::MouseButton::Left) =>","            MouseEventKind::Up(_) =>"),
 ("a25","P33",O,"        self.disabled.get(index).copied().unwrap_or(false)","        self.disabled.get(index + 1).copied().unwrap_or(false)"),
 ("a26","P33",O,"        list.normalize_selected();\n        list.refresh_display();\n","        list.normalize_selected();\n"),
 ("a27","P33",O,"        self.allow_markup = allow;\n        self.refresh_display();\n        self\n","        self.allow_markup = allow;\n        self\n"),
 ("a28","P33",C,"                return Some(placement.child_index);","                return Some(placements.len() - 1);"),
 ("a29","P33",C,"                y: placement.region.y - offset_y,\n                width: placement.region.width,\n                height: placement.region.height,\n            };\n            if scrolled_region","                y: placement.region.y,\n                width: placement.region.width,\n                height: placement.region.height,\n            };\n            if scrolled_region"),
 ("a30","P33",O,"        self.disabled = items.iter().map(|item| item.disabled).collect();","        self.disabled = items.iter().filter(|item| item.disabled).map(|item| item.disabled).collect();"),
 ("a31","P33",O,"        if self.is_disabled() || !self.is_visible() {\n            return None;\n        }\n        match key {","        match key {"),
 ("a32","P33",O,"            if let Some(index) = self.next_enabled_from(self.selected, 1) {","            if let Some(index) = self.next_enabled_from(self.selected + 1, 1) {"),
 ("a33","P33",O,"                escape_markup(item)\n","                item.clone()\n"),
 ("ok1","P33",O,MS,'''        if let Some(idx) = self.next_enabled_from(self.selected, delta) {
            self.selected = idx;
            self.refresh_display();
        }
'''),
 ("ok2","P33",O,NO,'''        if !self.disabled_at(self.selected) {
            return;
        }
        let other = self
            .next_enabled_from(self.selected, 1)
            .or_else(|| self.next_enabled_from(self.selected, -1));
        if let Some(index) = other {
            self.selected = index;
        }
'''),
 ("ok3","P33",O,CL,'''                    if index >= self.items.len() || self.disabled_at(index) {
                        return self.inner.on_mouse(event, region);
                    }
                    if self.selected != index {
                        self.selected = index;
                        self.refresh_display();
                    }
                    self.pending_selection = Some(index);
'''),
 ("ok4","P33",O,HI,'''            let disabled = self.disabled_at(index);
            if disabled {
                option.set_disabled(true);
                option.add_class("option-list--option-disabled");
            } else if index == self.selected {
                option.add_class("option-list--option-highlighted");
            }
'''),
 ("ok5","P33",O,NE,'''        let mut index = start as i32 + delta;
        while index >= 0 && (index as usize) < self.items.len() {
            if !self.disabled_at(index as usize) {
                return Some(index as usize);
            }
            index += delta;
        }
        None
'''),
 ("ok6","P33",O,'''        self.items = items.iter().map(|item| item.text.clone()).collect();
        self.disabled = items.iter().map(|item| item.disabled).collect();
''','''        let mut texts = Vec::with_capacity(items.len());
        let mut disabled = Vec::with_capacity(items.len());
        for item in items {
            texts.push(item.text);
            disabled.push(item.disabled);
        }
        self.items = texts;
        self.disabled = disabled;
'''),
 ("ok7","P33",O,SI+"        self.refresh_display();\n","        self.disabled = vec![false; items.len()];\n        self.items = items;\n        self.settle();\n    }\n\n    fn settle(&mut self) {\n        self.normalize_selected();\n        self.refresh_display();\n"),
 ("ok8","P33",O,"        self.selected = selected.min(self.items.len() - 1);\n        self.normalize_selected();","        let last = self.items.len() - 1;\n        self.selected = if selected > last { last } else { selected };\n        self.normalize_selected();"),
 ("ok9","P33",O,"        self.disabled.get(index).copied().unwrap_or(false)","        match self.disabled.get(index) {\n            Some(disabled) => *disabled,\n            None => false,\n        }"),
 ("ok10","P33",O,'''            KeyCode::Up => {
                self.move_selection(-1);
            }
            KeyCode::Down => {
                self.move_selection(1);
            }
            _ => {}
''','''            KeyCode::Up => self.move_selection(-1),
            KeyCode::Down => self.move_selection(1),
            _ => return None,
'''),
 ("ok11","P33",O,'''        if self.selected >= self.items.len() {
            self.selected = self.items.len() - 1;
        }
''','''        self.selected = self.selected.min(self.items.len() - 1);
'''),
]
