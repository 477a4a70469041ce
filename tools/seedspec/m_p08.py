B="crates/textual/src/widget/button.rs"; S="crates/textual/src/widget/switch.rs"; I="crates/textual/src/widget/input.rs"; H="crates/textual/src/widget/header.rs"; ST="crates/textual/src/widget/static_widget.rs"
M=[
("oka1","P08",B,"        if self.is_disabled() {\n            return None;\n        }\n        match key","        match key"),
("oka2","P08",B,"                    if in_bounds && !self.is_disabled() {\n                        return self.press();","                    if in_bounds {\n                        return self.press();"),
("a3","P08",S,"if in_bounds && self.active && !self.disabled && !self.loading =>","if in_bounds && self.active && !self.loading =>"),
("a4","P08",S,"if self.disabled || self.loading || !self.focused {","if (self.disabled && self.loading) || !self.focused {"),
("a5","P08",I,"        if self.is_disabled() || !self.is_visible() {\n            return None;","        if !self.is_visible() {\n            return None;"),
("a6","P08",H,"                    if in_bounds && !self.inner.is_disabled() {\n                        self.press","                    if in_bounds {\n                        self.press"),
("a7","P08",I,"self.is_visible() && !self.is_disabled()","self.is_visible() || !self.is_disabled()"),
("a8","P08",S,"self.visible && !self.disabled && !self.loading","self.visible && !self.loading"),
("ok1","P08",S,"if in_bounds && self.active && !self.disabled && !self.loading =>","if !(self.disabled || self.loading) && self.active && in_bounds =>"),
("ok2","P08",B,"        if self.is_disabled() {\n            return None;\n        }\n        match key {\n            KeyCode::Enter | KeyCode::Char(' ') => self.press(),","        match key {\n            KeyCode::Enter | KeyCode::Char(' ') if !self.is_disabled() => self.press(),"),
("ok3","P08",B,"        let in_bounds = region.contains_point(mx, my);\n","        let in_bounds = region.contains_point(mx, my);\n        let enabled = !Widget::<M>::is_disabled(self);\n"),
("ok4","P08",[(B,"        let in_bounds = region.contains_point(mx, my);\n","        let in_bounds = region.contains_point(mx, my);\n        let enabled = in_bounds && !self.is_disabled();\n"),(B,"                    if in_bounds && !self.is_disabled() {\n                        return self.press();","                    if enabled {\n                        return self.press();")]),
]
