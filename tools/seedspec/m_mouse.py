D="crates/textual/src/"; C=D+"containers/container.rs"; G=D+"containers/grid.rs"; IG=D+"containers/item_grid.rs"; SC=D+"containers/scrollable.rs"; S=D+"widget/screen.rs"; A=D+"widget/app_widget.rs"; CC=D+"containers.rs"; CV=D+"canvas.rs"
M=[
("a1","P31",C,"        for child in &mut self.children {\n            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key) {","        for child in &mut self.children {\n            if let Some(msg) = child.on_event(key) {"),
("a2","P31",A,"        for child in self.children.iter_mut().rev() {\n            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key) {","        for child in self.children.iter_mut().rev().take(1) {\n            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key) {"),
("a3","P31",G,"            if let Some(msg) = child.on_event(key) {\n                return Some(msg);\n            }","            return child.on_event(key);"),
("a4","P31",SC,"            .filter(|(_, c)| c.participates_in_layout())","            .filter(|(_, c)| c.is_visible() || c.participates_in_layout())"),
("a5","P31",S,"            .filter(|(_, c)| c.participates_in_layout())\n            .map(|(i, c)| layouts::LayoutChild {\n                index: i,","            .filter(|(_, c)| c.participates_in_layout())\n            .map(|(i, c)| layouts::LayoutChild {\n                index: i.min(60000),"),
("a6","P31",G,"            .enumerate()\n            .filter(|(_, c)| c.participates_in_layout())","            .filter(|c| c.participates_in_layout())\n            .enumerate()"),
("a7","P31",C,"            if !self.children[placement.child_index].participates_in_layout() {\n                continue;\n            }",""),
("a8","P31",S,"            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key)","            if child.participates_in_layout() && child.is_disabled() {\n                break;\n            }\n            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key)"),
("ok1","P31,P32",C,"        for child in &mut self.children {\n            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key) {\n                return Some(msg);\n            }\n        }\n        None","        self.children\n            .iter_mut()\n            .filter(|c| c.participates_in_layout())\n            .find_map(|c| c.on_event(key))"),
("ok2","P31",G,"        for child in &mut self.children {\n            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key) {\n                return Some(msg);\n            }\n        }\n        None","        for i in 0..self.children.len() {\n            let child = &mut self.children[i];\n            if child.participates_in_layout() {\n                let answer = child.on_event(key);\n                if answer.is_some() {\n                    return answer;\n                }\n            }\n        }\n        None"),
("ok3","P31,P32",SC,"        let children_with_styles: Vec<layouts::LayoutChild> = self\n            .children\n            .iter()\n            .enumerate()\n            .filter(|(_, c)| c.participates_in_layout())\n            .map(|(i, c)| layouts::LayoutChild {\n                index: i,\n                style: c.get_style(),\n                desired_size: c.desired_size(),\n                node: c,\n            })\n            .collect();\n\n        layouts::arr","        let mut children_with_styles: Vec<layouts::LayoutChild> = Vec::new();\n        for (i, c) in self.children.iter().enumerate() {\n            if !c.participates_in_layout() {\n                continue;\n            }\n            children_with_styles.push(layouts::LayoutChild {\n                index: i,\n                style: c.get_style(),\n                desired_size: c.desired_size(),\n                node: c,\n            });\n        }\n\n        layouts::arr"),
("ok4","P31,P32",C,"        for placement in placements.into_iter().rev() {\n            if !self.children[placement.child_index].participates_in_layout() {\n                continue;\n            }","        for placement in placements.iter().rev() {\n            let hidden = !self.children[placement.child_index].participates_in_layout();\n            if hidden {\n                continue;\n            }"),
("ok5","P31,P32",S,"                if let Some(child) = self.children.get_mut(placement.child_index) {\n                    if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {\n                        child.set_hover(true);\n                    }\n                    return child.on_mouse_with_sender(event, scrolled_region);\n                }","                let Some(child) = self.children.get_mut(placement.child_index) else {\n                    continue;\n                };\n                if event.kind == crossterm::event::MouseEventKind::Moved {\n                    child.set_hover(true);\n                }\n                return child.on_mouse_with_sender(event, scrolled_region);"),
("ok6","P31",A,"        for child in self.children.iter_mut().rev() {\n            if !child.participates_in_layout() {\n                continue;\n            }\n            if let Some(msg) = child.on_event(key) {\n                return Some(msg);\n            }\n        }\n        None","        for child in self\n            .children\n            .iter_mut()\n            .rev()\n            .filter(|c| c.participates_in_layout())\n        {\n            let answer = child.on_event(key);\n            if answer.is_some() {\n                return answer;\n            }\n        }\n        None"),
("ok7","P31,P32",CC,"        if !self.child().participates_in_layout() {\n            return None;\n        }\n        let centered = self.centered_region(region);\n        self.child_mut().on_mouse(event, centered)","        if self.child().participates_in_layout() {\n            let area = self.centered_region(region);\n            self.child_mut().on_mouse(event, area)\n        } else {\n            None\n        }"),
("ok8","P32",G,"            if placement.region.contains_point(mx, my) {\n                if let Some(msg) =\n                    self.children[placement.child_index].on_mouse(event, placement.region)\n                {\n                    return Some(msg);\n                }\n            }","            let area = placement.region;\n            if !area.contains_point(mx, my) {\n                continue;\n            }\n            let answer = self.children[placement.child_index].on_mouse(event, area);\n            if answer.is_some() {\n                return answer;\n            }"),
("ok9","P32",CV,"        x >= self.x\n            && x < self.x.saturating_add(self.width)\n            && y >= self.y\n            && y < self.y.saturating_add(self.height)","        let right = self.x.saturating_add(self.width);\n        let bottom = self.y.saturating_add(self.height);\n        if x < self.x || y < self.y {\n            return false;\n        }\n        x < right && y < bottom"),
("c1","P32",SC,"        for placement in &layout.placements {","        for placement in layout.placements.iter().rev() {"),
("c2","P32",SC,"                            y: placement.region.y - offset_y,\n                            width: placement.region.width,\n                            height: placement.region.height,\n                        };\n                        if scrolled.contains_point(mx, my) {\n                            return self.children[placement.child_index].on_mouse(event, scrolled);","                            y: placement.region.y - offset_y,\n                            width: placement.region.width,\n                            height: placement.region.height,\n                        };\n                        if placement.region.contains_point(mx, my) {\n                            return self.children[placement.child_index].on_mouse(event, scrolled);"),
("c3","P32",SC,"                            return self.children[placement.child_index].on_mouse(event, scrolled);","                            return self.children[placement.child_index].on_mouse(event, placement.region);"),
("c4","P32",G,"            if placement.region.contains_point(mx, my) {","            if placement.region.contains_point(my, mx) {"),
("c5","P32",CC,"        let centered = self.centered_region(region);\n        self.child_mut().on_mouse(event, centered)","        self.child_mut().on_mouse(event, region)"),
("c6","P32",S,"        let placements = self.compute_child_placements(region, viewport);\n\n        for placement in placements.into_iter()","        let placements = self.compute_child_placements(self.content_region_for_scroll(region), viewport);\n\n        for placement in placements.into_iter()"),
]
