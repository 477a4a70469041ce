T="crates/textual/src/"
C=T+"containers/container.rs"; S=T+"widget/static_widget.rs"; B=T+"border_box.rs"; SC=T+"widget/screen.rs"
M=[
 ("a1","P25",C,'''                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
                scroll.set_viewport(content_region.width, content_region.height);
''','''                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
                let content_region = self.content_region_for_scroll(inner_region);
                scroll.set_viewport(content_region.width, content_region.height);
'''),
 ("a2","P25",B,'''    {
        let cache = BOX_CACHE.read().unwrap();
        if let Some(cached) = cache.get(&key) {
            return cached.clone();
        }
    }
''','''    let known = BOX_CACHE.read().unwrap();
    if let Some(cached) = known.get(&key) {
        return cached.clone();
    }
'''),
 ("a3","P25",C,'''        {
            let cache = self.cached_layout.borrow();
            if let Some(ref cached) = *cache {
                if cached.region == region && cached.viewport == viewport {
                    return cached.placements.clone();
                }
            }
        }
''','''        let cache = self.cached_layout.borrow();
        if let Some(ref cached) = *cache {
            if cached.region == region && cached.viewport == viewport {
                return cached.placements.clone();
            }
        }
'''),
 ("a4","P25",S,'''                let old_hover = self.hovered_link.borrow().clone();
''','''                let old_hover = self.hovered_link.borrow();
'''.replace("let old_hover","let hovered") + "                let old_hover = hovered.clone();\n"),
 ("a5","P25",S,'''        if self.hovered_link.borrow().is_some() {
            *self''','''        if let Some(_) = self.hovered_link.borrow().as_ref() {
            *self'''),
 ("a6","P25",SC,'''        {
            let mut scroll = self.scroll.borrow_mut();
            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
            scroll.set_viewport(content_region.width, content_region.height);
        }

        canvas.push_clip(content_region);
        for placement in &placements {
            if let''','''        let mut scroll = self.scroll.borrow_mut();
        scroll.set_virtual_size(final_virtual_width, final_virtual_height);
        scroll.set_viewport(content_region.width, content_region.height);

        canvas.push_clip(content_region);
        for placement in &placements {
            if let'''),
 ("a7","P25",C,'''        let (offset_x, offset_y) = {
            let scroll = self.scroll.borrow();
            (scroll.offset_x, scroll.offset_y)
        };

        // 6.''','''        let (offset_x, offset_y) = {
            let mut scroll = self.scroll.borrow_mut();
            let at = |dx: i32| (self.scroll.borrow().offset_x + dx, 0);
            let x = at(0).0;
            scroll.offset_x = x;
            (scroll.offset_x, scroll.offset_y)
        };

        // 6.'''),
 ("a8","P25",C,"    /// Check if vertical scrollbar should be shown based on overflow-y and content.\n","    fn with_scroll<R>(&self, f: impl FnOnce(&mut ScrollState) -> R) -> R {\n        f(&mut self.scroll.borrow_mut())\n    }\n\n    fn shown_at(&self) -> (i32, i32) {\n        self.with_scroll(|s| (s.offset_x, if self.show_vertical_scrollbar() { s.offset_y } else { 0 }))\n    }\n\n    /// Check if vertical scrollbar should be shown based on overflow-y and content.\n"),
 ("ok1","P25",C,'''                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
                scroll.set_viewport(content_region.width, content_region.height);
            }
''','''                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
                drop(scroll);
                let region = self.content_region_for_scroll(inner_region);
                let mut scroll = self.scroll.borrow_mut();
                let _ = region;
                scroll.set_viewport(content_region.width, content_region.height);
            }
'''),
 ("ok2","P25",C,'''        let (offset_x, offset_y) = {
            let scroll = self.scroll.borrow();
            (scroll.offset_x, scroll.offset_y)
        };

        // 6.''','''        let scroll = self.scroll.borrow();
        let _shown = self.show_vertical_scrollbar();
        let (offset_x, offset_y) = (scroll.offset_x, scroll.offset_y);
        drop(scroll);

        // 6.'''),
 ("ok3","P25",SC,'''        {
            let mut scroll = self.scroll.borrow_mut();
            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
            scroll.set_viewport(content_region.width, content_region.height);
        }

        canvas.push_clip(content_region);
        for placement in &placements {
            if let''','''        self.scroll.borrow_mut().set_virtual_size(final_virtual_width, final_virtual_height);
        self.scroll.borrow_mut().set_viewport(content_region.width, content_region.height);

        canvas.push_clip(content_region);
        for placement in &placements {
            if let'''),
 ("ok4","P25",B,'''    {
        let mut cache = BOX_CACHE.write().unwrap();
        cache.insert(key, result.clone());
    }
''','''    BOX_CACHE.write().unwrap().insert(key, result.clone());
'''),
 ("ok5","P25",C,"    /// Check if vertical scrollbar should be shown based on overflow-y and content.\n","    fn with_scroll<R>(&self, f: impl FnOnce(&mut ScrollState) -> R) -> R {\n        f(&mut self.scroll.borrow_mut())\n    }\n\n    fn shown_at(&self) -> (i32, i32) {\n        self.with_scroll(|s| (s.offset_x, s.offset_y))\n    }\n\n    /// Check if vertical scrollbar should be shown based on overflow-y and content.\n"),
]
