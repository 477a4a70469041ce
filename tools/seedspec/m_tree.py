C="crates/textual/src/containers/container.rs"
G="crates/textual/src/containers/grid.rs"
A="crates/textual/src/widget/app_widget.rs"
SC="crates/textual/src/containers/scrollable.rs"
SN="crates/textual/src/widget/screen.rs"
FE="""    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
        for child in &mut self.children {
            f(child.as_mut());
        }
    }"""
CF="""    fn clear_focus(&mut self) {
        for child in &mut self.children {
            child.clear_focus();
        }
    }"""
M=[
("c1","P09",C,FE,FE.replace("            f(","            if !child.is_visible() {\n                continue;\n            }\n            f(")),
("c2","P09",G,FE,FE.replace("&mut self.children {","self.children.iter_mut().skip(1) {")),
("c3","P09",A,"""            Some(child) => Some(child.as_mut()),
            None => None,""","""            Some(child) if child.is_visible() => Some(child.as_mut()),
            _ => None,"""),
("c4","P09",SN,"    fn child_count(&self) -> usize {\n        self.children.len()","    fn child_count(&self) -> usize {\n        self.children.iter().filter(|c| c.is_visible()).count()"),
("c5","P09",G,"        for child in &mut self.children {\n            child.on_resize(size);","        for child in self.children.iter_mut().take(64) {\n            child.on_resize(size);"),
("c6","P09",C,"""        if index < self.children.len() {
            Some(self.children[index].as_mut())""","""        if index + 1 < self.children.len() {
            Some(self.children[index].as_mut())"""),
("c7","P09",SC,CF,CF.replace("            child.clear_focus();","            if child.is_focused() {\n                child.clear_focus();\n                break;\n            }")),
("okc1","P09,P07",C,FE,FE.replace("""        for child in &mut self.children {
            f(child.as_mut());
        }""","        self.children.iter_mut().for_each(|c| f(c.as_mut()));")),
("okc2","P09,P07",G,FE,FE.replace("""        for child in &mut self.children {
            f(child.as_mut());
        }""","        for i in 0..self.children.len() {\n            f(self.children[i].as_mut());\n        }")),
("okc3","P09,P07",SN,"""        if index < self.children.len() {
            Some(self.children[index].as_mut())
        } else {
            None
        }""","""        if index >= self.children.len() {
            return None;
        }
        let child = &mut self.children[index];
        Some(child.as_mut())"""),
("okc4","P09,P07",C,"""        if index < self.children.len() {
            Some(self.children[index].as_mut())
        } else {
            None
        }""","""        self.children
            .get_mut(index)
            .map(|c| c.as_mut() as &mut dyn Widget<M>)"""),
("okc5","P09,P07",SC,CF,CF.replace("""        for child in &mut self.children {
            child.clear_focus();
        }""","""        let mut i = 0;
        while i < self.children.len() {
            self.children[i].clear_focus();
            i += 1;
        }""")),
("okc6","P09,P07",A,"""        match self.children.get_mut(index) {
            Some(child) => Some(child.as_mut()),
            None => None,
        }""","""        let child = self.children.get_mut(index)?;
        Some(child.as_mut())"""),
]
T="crates/textual/src/tree.rs"
BT="crates/textual/src/widget/button.rs"
CP="crates/textual/src/widget/command_palette.rs"
CT="""        self.children
            .iter()
            .filter(|c| c.participates_in_layout())
            .map(|c| c.count_focusable())
            .sum()"""
NT="""            let count = child.count_focusable();
            if n < count {
                return child.focus_nth(n);
            }
            n -= count;"""
M+=[
("f1","P07",C,CT,CT.replace("participates_in_layout","is_visible")),
("f2","P07",G,NT,NT.replace("n < count","n <= count")),
("f3","P07",SN,NT,NT.replace("            n -= count;","            n -= 1;")),
("f4","P07",C,"            if !child.participates_in_layout() {\n                continue;\n            }\n            let count","            let count"),
("f5","P07",T,"        self.root.clear_focus();\n        if !self.root.focus_nth","        if focus_index != self.current_focus_index {\n            self.root.clear_focus();\n        }\n        if !self.root.focus_nth"),
("f6","P07",T,"            if child.participates_in_layout() && find_focus_path_recursive","            if find_focus_path_recursive"),
("f7","P07",T,"        self.focus_path.clear();\n        self.current_focus_index = focus_index;\n","        if focus_index == self.current_focus_index && !self.focus_path.indices.is_empty() {\n            return;\n        }\n        self.focus_path.clear();\n        self.current_focus_index = focus_index;\n"),
("f8","P07",T,"    if !widget.participates_in_layout() {\n        return None;\n    }\n    if widget.is_focusable() {","    if widget.is_focusable() {"),
("f9","P07",T,"(self.current_focus_index - 1).min(count - 1)","self.current_focus_index - 1"),
("f10","P07",T,"(self.current_focus_index + 1) % count","(self.current_focus_index + 1).min(count - 1)"),
("f11","P07",BT,"        if n == 0 && self.is_focusable() {","        if n == 0 {"),
("f12","P07",CP,"""        self.visible
    }

    fn set_focus""","""        self.visible && !self.inner.is_loading()
    }

    fn set_focus"""),
("f13","P07",T,"""                return true; // Found in this subtree
            }
        }
        path.pop();""","""                return true; // Found in this subtree
            }
            path.pop();
        }"""),
("f14","P07",T,"        if widget.id() == Some(id) {\n            return Some(*index);\n        }\n        *index += 1;","        if widget.id() == Some(id) {\n            return Some(*index);\n        }\n        if !widget.is_disabled() {\n            *index += 1;\n        }"),
("okf1","P07",C,CT,"""        let mut total = 0;
        for c in &self.children {
            if c.participates_in_layout() {
                total += c.count_focusable();
            }
        }
        total"""),
("okf2","P07",G,NT,"""            let count = child.count_focusable();
            if n >= count {
                n -= count;
                continue;
            }
            return child.focus_nth(n);"""),
("okf3","P07",SN,"""        for child in &mut self.children {
            if !child.participates_in_layout() {
                continue;
            }
            let count = child.count_focusable();""","""        for child in self.children.iter_mut().filter(|c| c.participates_in_layout()) {
            let count = child.count_focusable();"""),
("okf4","P07",T,"""    for i in 0..child_count {
        path.push(i);
        if let Some(child) = widget.get_child_mut(i) {
            if child.participates_in_layout() && find_focus_path_recursive(child, path, remaining) {
                return true; // Found in this subtree
            }
        }
        path.pop();
    }""","""    for i in 0..child_count {
        let Some(child) = widget.get_child_mut(i) else {
            continue;
        };
        if !child.participates_in_layout() {
            continue;
        }
        path.push(i);
        if find_focus_path_recursive(child, path, remaining) {
            return true;
        }
        path.pop();
    }"""),
("okf5","P07",T,"""        if !self.root.focus_nth(focus_index) {
            return false;
        }
        self.update_focus(focus_index);
        true""","""        let focused = self.root.focus_nth(focus_index);
        if focused {
            self.update_focus(focus_index);
        }
        focused"""),
("okf6","P07",BT,"""        if n == 0 && self.is_focusable() {
            self.set_focus(true);
            true
        } else {
            false
        }""","""        if n != 0 || self.inner.is_disabled() {
            return false;
        }
        self.set_focus(true);
        true"""),
("okf7","P07",T,"""        if self.set_focus_index(prev) {
            Some(prev)
        } else {
            None
        }""","""        self.set_focus_index(prev).then_some(prev)"""),
("okf8","P07",C,NT,"""            match child.count_focusable() {
                count if n < count => return child.focus_nth(n),
                count => n -= count,
            }"""),
("okf10","P07",T,"        let next = (self.current_focus_index + 1) % count;","        let mut next = self.current_focus_index + 1;\n        if next >= count {\n            next = 0;\n        }"),
("okf9","P07",T,"""    let child_count = widget.child_count();
    for i in 0..child_count {
        if let Some(child) = widget.get_child_mut(i) {
            if let Some(found) = find_focus_index_by_id(child, id, index) {
                return Some(found);
            }
        }
    }""","""    for i in 0..widget.child_count() {
        let found = widget
            .get_child_mut(i)
            .and_then(|child| find_focus_index_by_id(child, id, index));
        if found.is_some() {
            return found;
        }
    }"""),
]
