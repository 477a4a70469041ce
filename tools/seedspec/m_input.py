T="crates/textual/src/"
I=T+"widget/input.rs"; G=T+"grapheme.rs"
M=[
 ("a1","P12",I,"        self.value = value.into();\n        self.cursor = self.cursor.min(grapheme_count(&self.value));\n","        self.value = value.into();\n"),
 ("a2","P12",I,"        self.value = value.into();\n        self.cursor = self.cursor.min(grapheme_count(&self.value));\n","        let count = grapheme_count(&self.value);\n        self.value = value.into();\n        self.cursor = self.cursor.min(count);\n"),
 ("a3","P12",I,"        self.value = value.into();\n        self.cursor = self.cursor.min(grapheme_count(&self.value));\n","        self.value = value.into();\n        self.cursor = self.cursor.min(self.value.len());\n"),
 ("a4","P12",I,"        self.cursor = cursor.min(grapheme_count(&self.value));","        self.cursor = cursor.min(self.value.chars().count());"),
 ("a5","P12",I,"        if let Some((start, end)) = grapheme_byte_range(&self.value, cursor) {\n            self.value.replace_range(start..end, \"\");","        if let Some((start, _)) = grapheme_byte_range(&self.value, cursor) {\n            self.value.remove(start);"),
 ("a6","P12",I,"            self.value.replace_range(start..end, \"\");\n            self.cursor = remove_index;","            self.value.replace_range(start..end, \"\");\n            self.cursor = cursor;"),
 ("a7","P12",I,"                if self.cursor < max {","                if self.cursor <= max {"),
 ("a8","P12",I,"                    self.cursor += 1;\n                    self.refresh_display();","                    self.cursor += 1;"),
 ("a9","P12",I,"                self.cursor = grapheme_count(&self.value);\n                self","                self.cursor = self.value.len();\n                self"),
 ("a10","P12",I,"            let suffix: String = value_graphemes[cursor + 1..].concat();","            let suffix: String = value_graphemes[cursor..].concat();"),
 ("a11","P12",I,"                escape_markup(&suffix)","                suffix"),
 ("a12","P12",I,"            self.focused = is_focused;\n            self.refresh_display();","            self.focused = is_focused;"),
 ("a13","P12",I,"        let byte_index = grapheme_byte_index(&self.value, cursor);","        let byte_index = grapheme_byte_index(&self.value, cursor.saturating_sub(1));"),
 ("a14","P12",G,"        .map(|(idx, _)| idx)\n        .unwrap_or(text.len())\n}\n\npub(crate) fn grapheme_byte_range","        .map(|(idx, _)| idx)\n        .unwrap_or(0)\n}\n\npub(crate) fn grapheme_byte_range"),
 ("a15","P12",G,"    let end = iter.next().map(|(idx, _)| idx).unwrap_or(text.len());","    let end = iter.next().map(|(idx, _)| idx).unwrap_or(start + 1);"),
 ("a16","P12",G,"    UnicodeSegmentation::graphemes(text, true).count()","    text.chars().count()"),
 ("a17","P12",I,"            '[' | ']' | '\\\\' => {","            '[' | ']' => {"),
 ("a18","P12",I,"        let remove_index = cursor.saturating_sub(1);","        let remove_index = cursor.min(grapheme_count(&self.value).saturating_sub(1));"),
 ("a19","P12",I,"        self.placeholder = None;\n        self.refresh_display();","        self.placeholder = None;"),
 ("a20","P12",I,"        if self.cursor == 0 {\n            return;\n        }","        if self.cursor == 1 {\n            return;\n        }"),
 ("a21","P12",I,"        self.inner.update(display);","        if !self.focused {\n            self.inner.update(display);\n        }"),
 ("ok1","P12",I,"        self.value = value.into();\n        self.cursor = self.cursor.min(grapheme_count(&self.value));\n","        let value = value.into();\n        let end = grapheme_count(&value);\n        self.value = value;\n        if self.cursor > end {\n            self.cursor = end;\n        }\n"),
 ("ok2","P12",I,"        if self.cursor == 0 {\n            return;\n        }\n        let cursor = self.cursor.min(grapheme_count(&self.value));\n        let remove_index = cursor.saturating_sub(1);","        let cursor = self.cursor.min(grapheme_count(&self.value));\n        if cursor == 0 {\n            return;\n        }\n        let remove_index = cursor - 1;"),
 ("ok3","P12",I,"                if self.cursor > 0 {\n                    self.cursor -= 1;\n                    self.refresh_display();\n                }","                let back = self.cursor.saturating_sub(1);\n                if back != self.cursor {\n                    self.set_cursor(back);\n                }"),
 ("ok4","P12",I,"                let max = grapheme_count(&self.value);\n                if self.cursor < max {\n                    self.cursor += 1;\n                    self.refresh_display();\n                }","                self.cursor = (self.cursor + 1).min(grapheme_count(&self.value));\n                self.refresh_display();"),
 ("ok5","P12",I,"        let value_graphemes: Vec<&str> = graphemes(&self.value).collect();\n        let cursor = self.cursor.min(value_graphemes.len());\n\n        if cursor >= value_graphemes.len() {","        let value_graphemes: Vec<&str> = graphemes(&self.value).collect();\n        let len = value_graphemes.len();\n        let cursor = self.cursor;\n\n        if cursor >= len {"),
 ("ok6","P12",I,"            '[' | ']' | '\\\\' => {\n                out.push('\\\\');\n                out.push(ch);\n            }\n            _ => out.push(ch),","            '[' | ']' | '\\\\' => {\n                out.push('\\\\');\n                out.push(ch);\n            }\n            other => out.push(other),"),
 ("ok7","P12",I,"    for ch in input.chars() {\n        match ch {\n            '[' | ']' | '\\\\' => {\n                out.push('\\\\');\n                out.push(ch);\n            }\n            _ => out.push(ch),\n        }\n    }","    for ch in input.chars() {\n        if ch == '[' || ch == ']' || ch == '\\\\' {\n            out.push('\\\\');\n        }\n        out.push(ch);\n    }"),
 ("ok8","P12",G,"    let mut iter = UnicodeSegmentation::grapheme_indices(text, true);\n    let (start, _) = iter.nth(grapheme_index)?;\n    let end = iter.next().map(|(idx, _)| idx).unwrap_or(text.len());\n    Some((start, end))","    let mut iter = UnicodeSegmentation::grapheme_indices(text, true);\n    let Some((start, _)) = iter.nth(grapheme_index) else {\n        return None;\n    };\n    let end = match iter.next() {\n        Some((idx, _)) => idx,\n        None => text.len(),\n    };\n    Some((start, end))"),
 ("ok9","P12",G,"    let (start, _) = iter.nth(grapheme_index)?;\n    let end = iter.next().map(|(idx, _)| idx).unwrap_or(text.len());\n    Some((start, end))","    let (start, cluster) = iter.nth(grapheme_index)?;\n    Some((start, start + cluster.len()))"),
 ("ok10","P12",I,"            KeyCode::Home => {\n                self.cursor = 0;\n                self.refresh_display();\n            }","            KeyCode::Home => self.set_cursor(0),"),
 ("ok11","P12",I,"        if let Some((start, end)) = grapheme_byte_range(&self.value, cursor) {\n            self.value.replace_range(start..end, \"\");\n        }\n        self.refresh_display();","        let Some((start, end)) = grapheme_byte_range(&self.value, cursor) else {\n            return;\n        };\n        self.value.replace_range(start..end, \"\");\n        self.refresh_display();"),
]
