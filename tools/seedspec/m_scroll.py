T="crates/textual/src/"
S=T+"scroll.rs"; C=T+"widget/screen.rs"; B=T+"containers/scrollable.rs"; N=T+"containers/container.rs"
UP="self.offset_y = self\n            .offset_y\n            .saturating_sub(amount)\n            .clamp(0, self.max_scroll_y());"
DN=UP.replace("_sub","_add")
M=[
 ("a1","P10",S,UP,"self.offset_y = self.offset_y.saturating_sub(amount);"),
 ("a2","P10",S,DN,"self.offset_y = (self.offset_y + amount).min(self.virtual_height);"),
 ("a3","P10",S,"        self.offset_x = self.offset_x.min(self.max_scroll_x()).max(0);\n        self.offset_y = self.offset_y.min(self.max_scroll_y()).max(0);\n    }\n\n    /// Update virtual","        self.offset_x = self.offset_x.min(self.max_scroll_x()).max(0);\n    }\n\n    /// Update virtual"),
 ("a4","P10",S,"self.offset_y = truncated.clamp(0, self.max_scroll_y());","self.offset_y = truncated.min(self.max_scroll_y());"),
 ("a5","P10",S,"self.offset_x = truncated.clamp(0, self.max_scroll_x());","self.offset_x = truncated.clamp(0, self.max_scroll_y());"),
 ("a6","P10",S,"(self.virtual_width - self.viewport_width).max(0)","(self.virtual_width - self.viewport_width + 1).max(0)"),
 ("a7","P10",S,"        self.virtual_height > self.viewport_height","        self.virtual_height >= self.viewport_height"),
 ("a8","P10",S,"        self.virtual_width = width;\n        self.virtual_height = height;\n        // Clamp","        self.virtual_height = height;\n        if width < self.virtual_width {\n            return;\n        }\n        self.virtual_width = width;\n        // Clamp"),
 ("a9","P10",C,"let max_scroll_x = (scroll.virtual_width - content_region.width).max(0);","let max_scroll_x = (scroll.virtual_width - content_region.height).max(0);"),
 ("a10","P10",C,"scroll.offset_y = (scroll.offset_y - SCROLL_AMOUNT).max(0);","scroll.offset_y -= SCROLL_AMOUNT;"),
 ("a11","P10",C,"                    let max_scroll_y = (scroll.virtual_height - content_region.height).max(0);\n                    scroll.offset_y = (scroll.offset_y + SCROLL_AMOUNT).min(max_scroll_y);","                    let max_scroll_y = scroll.virtual_height.max(0);\n                    scroll.offset_y = (scroll.offset_y + SCROLL_AMOUNT).min(max_scroll_y);"),
 ("a12","P10",B,"ScrollMessage::ScrollLeft => {\n                self.scroll.borrow_mut().scroll_left(SCROLL_AMOUNT);","ScrollMessage::ScrollLeft => {\n                self.scroll.borrow_mut().scroll_up(SCROLL_AMOUNT);"),
 ("a13","P10",B,"Some(scroll.max_scroll_y() as f32)","Some(scroll.max_scroll_x() as f32)"),
 ("a14","P10",B,"self.scroll.borrow_mut().scroll_to(None, Some(new_position));","self.scroll.borrow_mut().scroll_to(Some(new_position), None);"),
 ("a15","P10",N,"                    self.scroll.borrow_mut().scroll_up(SCROLL_AMOUNT);","                    self.scroll.borrow_mut().scroll_up(-SCROLL_AMOUNT);"),
 ("a16","P10",S,"        if let Some(y) = y {","        if let Some(y) = y.or(x) {"),
 ("a17","P10",B,"                scroll.scroll_up(amount);\n                drop(scroll);\n                self.dirty = true;\n                return None;","                scroll.scroll_down(amount);\n                drop(scroll);\n                self.dirty = true;\n                return None;"),
 ("a18","P10",C,"            scroll.set_viewport(content_region.width, content_region.height);","            scroll.viewport_width = content_region.width;\n            scroll.viewport_height = content_region.height;"),
 ("a19","P10",S,DN,"let end = self.max_scroll_y();\n        let next = self.offset_y.saturating_add(amount).clamp(0, end);\n        self.offset_y = if end - next < amount { end } else { next };"),
 ("ok1","P10",S,UP,"let top = self.max_scroll_y();\n        let next = self.offset_y.saturating_sub(amount);\n        self.offset_y = if next < 0 {\n            0\n        } else if next > top {\n            top\n        } else {\n            next\n        };"),
 ("ok2","P10",S,"        self.offset_x = self.offset_x.min(self.max_scroll_x()).max(0);\n        self.offset_y = self.offset_y.min(self.max_scroll_y()).max(0);\n    }\n\n    /// Update virtual","        self.keep_in_bounds();\n    }\n\n    fn keep_in_bounds(&mut self) {\n        self.offset_x = self.offset_x.clamp(0, self.max_scroll_x());\n        self.offset_y = self.offset_y.clamp(0, self.max_scroll_y());\n    }\n\n    /// Update virtual"),
 ("ok3","P10",S,"(self.virtual_width - self.viewport_width).max(0)","if self.virtual_width > self.viewport_width {\n            self.virtual_width - self.viewport_width\n        } else {\n            0\n        }"),
 ("ok4","P10",C,"                        let max_scroll_x = (scroll.virtual_width - content_region.width).max(0);\n                        scroll.offset_x = (scroll.offset_x + SCROLL_AMOUNT).min(max_scroll_x);","                        scroll.scroll_right(SCROLL_AMOUNT);"),
 ("ok5","P10",C,"scroll.offset_y = (scroll.offset_y - SCROLL_AMOUNT).max(0);","if scroll.offset_y > SCROLL_AMOUNT {\n                        scroll.offset_y -= SCROLL_AMOUNT;\n                    } else {\n                        scroll.offset_y = 0;\n                    }"),
 ("ok6","P10",S,"        if let Some(x) = x {\n            let truncated = x.floor() as i32;\n            self.offset_x = truncated.clamp(0, self.max_scroll_x());\n        }\n        if let Some(y) = y {\n            let truncated = y.floor() as i32;\n            self.offset_y = truncated.clamp(0, self.max_scroll_y());\n        }","        let place = |wanted: f32, end: i32| (wanted.floor() as i32).clamp(0, end);\n        if let Some(y) = y {\n            self.offset_y = place(y, self.max_scroll_y());\n        }\n        if let Some(x) = x {\n            self.offset_x = place(x, self.max_scroll_x());\n        }"),
 ("ok7","P10",B,"            ScrollMessage::ScrollUp => {\n                self.scroll.borrow_mut().scroll_up(SCROLL_AMOUNT);\n                self.dirty = true;\n            }\n            ScrollMessage::ScrollDown => {\n                self.scroll.borrow_mut().scroll_down(SCROLL_AMOUNT);\n                self.dirty = true;\n            }","            ScrollMessage::ScrollDown => {\n                self.scroll.borrow_mut().scroll_down(SCROLL_AMOUNT);\n                self.dirty = true;\n            }\n            ScrollMessage::ScrollUp => {\n                let mut state = self.scroll.borrow_mut();\n                state.scroll_up(SCROLL_AMOUNT);\n                drop(state);\n                self.dirty = true;\n            }"),
 ("ok8","P10",B,"                let x = if self.allow_horizontal_scroll() {\n                    Some(0.0)\n                } else {\n                    None\n                };\n","                let x = self.allow_horizontal_scroll().then_some(0.0);\n"),
 ("ok9","P10",B,"            KeyCode::PageUp if self.allow_vertical_scroll() => {\n                let mut scroll = self.scroll.borrow_mut();\n                let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;\n                scroll.scroll_up(amount);\n                drop(scroll);\n                self.dirty = true;\n                return None;","            KeyCode::PageUp if self.allow_vertical_scroll() => {\n                let page = self.page();\n                self.scroll.borrow_mut().scroll_up(page);\n                self.dirty = true;\n                return None;"),
]
M=[m if m[0]!="ok9" else ("ok9","P10",((B,m[3],m[4]),(B,"    fn handle_scroll(&mut self","    fn page(&self) -> i32 {\n        (self.scroll.borrow().viewport_height as f32 * PAGE_SCROLL_RATIO) as i32\n    }\n\n    fn handle_scroll(&mut self"))) for m in M]
