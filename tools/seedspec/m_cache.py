B = "crates/textual/src/border_box.rs"
C = "crates/textual/src/containers/container.rs"
M = []
def m(n, *e): M.append((n, "P18") + tuple(e))
INV = "        *self.cached_layout.borrow_mut() = None;\n"
m("a1", B, "        outer_style_key: StyleKey::from(outer_style),", "        outer_style_key: StyleKey::from(inner_style),")
m("a2", B, "            alpha: color.a.to_bits(),", "            alpha: (color.a * 255.0) as u32,")
m("a3", B, "            reverse: style.reverse,", "            reverse: false,")
m("a4", C, "if cached.region == region && cached.viewport == viewport {", "if cached.region == region {")
m("a5", C, "if cached.region == region && cached.viewport == viewport {", "if cached.region.width == region.width && cached.region.height == region.height && cached.viewport == viewport {")
m("a6", C, "        // A child may be changed through the reference given out\n" + INV, "")
m("a7", C, "        // The child may be changed through the reference given out\n" + INV, "")
m("a8", C, "        // Invalidate layout cache since style may affect layout\n" + INV, "")
m("a9", C, "        self.children = children;\n        self.cached_layout = RefCell::new(None);\n", "        self.children = children;\n")
m("a10", C, "            placements: placements.clone(),\n            region,\n", "            placements: placements.clone(),\n            region: Region { x: 0, y: 0, ..region },\n")
m("a11", B, "        cache.insert(key, result.clone());", "        cache.insert(BoxCacheKey { outer_style_key: key.inner_style_key.clone(), ..key }, result.clone());")
m("a12", B, "border_type: border_type.to_string(),", "border_type: border_type.chars().take(4).collect(),")
m("ok1", C, "if cached.region == region && cached.viewport == viewport {", "let same = cached.viewport == viewport && region == cached.region;\n                if same {")
m("ok2", C, """            let cache = self.cached_layout.borrow();
            if let Some(ref cached) = *cache {
                if cached.region == region && cached.viewport == viewport {
                    return cached.placements.clone();
                }
            }
""", """            let cache = self.cached_layout.borrow();
            match cache.as_ref() {
                Some(cached) if cached.region == region && cached.viewport == viewport => {
                    return cached.placements.clone();
                }
                _ => {}
            }
""")
M.append(("ok3", "P18", ((C, "        // Invalidate layout cache since style may affect layout\n" + INV, "        self.forget_layout();\n"), (C, "        // A child may be changed through the reference given out\n" + INV, "        self.forget_layout();\n"), (C, "    /// Set the widget ID for CSS targeting.\n", "    fn forget_layout(&self) {\n        self.cached_layout.replace(None);\n    }\n\n    /// Set the widget ID for CSS targeting.\n"))))
m("ok4", B, """    let key = BoxCacheKey {
        border_type: border_type.to_string(),
        inner_style_key: StyleKey::from(inner_style),
        outer_style_key: StyleKey::from(outer_style),
    };
""", """    let inner: StyleKey = inner_style.into();
    let outer: StyleKey = outer_style.into();
    let key = BoxCacheKey {
        border_type: String::from(border_type),
        inner_style_key: inner,
        outer_style_key: outer,
    };
""")
m("ok5", B, """            fg: style.fg.as_ref().map(ColorKey::from),
""", """            fg: match &style.fg {
                Some(color) => Some(ColorKey::from(color)),
                None => None,
            },
""")
m("ok6", C, "            if let Some(ref cached) = *cache {\n                if cached.region == region && cached.viewport == viewport {\n                    return cached.placements.clone();\n                }\n            }\n", "            if let Some(ref cached) = *cache {\n                if cached.region != region || cached.viewport != viewport {\n                    log::trace!(\"layout cache miss\");\n                } else {\n                    return cached.placements.clone();\n                }\n            }\n")
m("ok7", C, "        // The child may be changed through the reference given out\n" + INV + "        if index < self.children.len() {\n            Some(self.children[index].as_mut())\n        } else {\n            None\n        }", "        if index >= self.children.len() {\n            return None;\n        }\n" + INV + "        Some(self.children[index].as_mut())")
