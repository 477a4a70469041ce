D="crates/textual/src/"; C=D+"containers/container.rs"; G=D+"containers/grid.rs"; IG=D+"containers/item_grid.rs"; SC=D+"containers/scrollable.rs"; S=D+"widget/screen.rs"; CC=D+"containers.rs"
M=[]
def m(n,f,a,b,p="P05"): M.append((n,p,f,a,b))
m("a1",G,"        canvas.push_clip(inner_region);","        canvas.push_clip(region);")
m("a2",C,"            if !child.participates_in_layout() {\n                continue;\n            }\n\n            // Apply scroll","            if !child.participates_in_layout() {\n                return;\n            }\n\n            // Apply scroll")
m("a3",C,"            self.render_keylines(canvas, content_region, &placements);\n        }\n\n        canvas.pop_clip();","            self.render_keylines(canvas, content_region, &placements);\n            canvas.pop_clip();\n        }")
m("a4",SC,"            let visible_h = scrolled_region.x + scrolled_region.width > content_region.x","            let visible_h = scrolled_region.x >= content_region.x")
m("a5",S,"                if visible_h && visible_v {\n                    child.render","                if visible_h && visible_v && scrolled_region.y >= content_region.y {\n                    child.render")
m("a6",IG,"        canvas.push_clip(inner_region);\n","")
m("a7",IG,"            child.render(canvas, placement.region);\n        }\n        canvas.pop_clip();","            child.render(canvas, placement.region);\n            canvas.pop_clip();\n        }")
m("a8",S,"            width: (inner_region.width - v_size).max(0),\n            height: (inner_region.height - h_size).max(0),\n        };\n\n        let (placements","            width: inner_region.width + v_size,\n            height: (inner_region.height - h_size).max(0),\n        };\n\n        let (placements")
m("a9",CC,"        region.x + border_left + padding_left,","        region.x + border_left,")
m("a10",C,"            let visible_v = scrolled_region.y + scrolled_region.height > content_region.y\n                && scrolled_region.y < content_region.y + content_region.height;","            let visible_v = scrolled_region.y + scrolled_region.height > content_region.y + 1\n                && scrolled_region.y < content_region.y + content_region.height;")
m("a11",G,"        if !is_hidden && self.style.keyline.style != KeylineStyle::None {\n            self.render_keylines(canvas, inner_region);\n        }\n\n        canvas.pop_clip();","        if !is_hidden && self.style.keyline.style != KeylineStyle::None {\n            self.render_keylines(canvas, inner_region);\n            canvas.pop_clip();\n        }\n        canvas.pop_clip();")
m("a12",SC,"        canvas.push_clip(content_region);\n\n        for placement","        if content_region.is_empty() {\n            return;\n        }\n        canvas.push_clip(content_region);\n        if layout.placements.is_empty() {\n            return;\n        }\n\n        for placement")
m("ok1",SC,"            if visible_h && visible_v {\n                child.render(canvas, scrolled_region);\n            }","            if !visible_h || !visible_v {\n                continue;\n            }\n            child.render(canvas, scrolled_region);")
m("ok2",G,"        canvas.push_clip(inner_region);\n        for placement in self.compute_child_placements(inner_region, viewport) {","        let placements = self.compute_child_placements(inner_region, viewport);\n        canvas.push_clip(inner_region);\n        for placement in placements {")
m("ok3",C,"            // Only render if at least partially visible (both horizontally and vertically)\n            let visible_h = scrolled_region.x + scrolled_region.width > content_region.x\n                && scrolled_region.x < content_region.x + content_region.width;\n            let visible_v = scrolled_region.y + scrolled_region.height > content_region.y\n                && scrolled_region.y < content_region.y + content_region.height;\n\n            if visible_h && visible_v {","            if !scrolled_region.intersection(&content_region).is_empty() {")
m("ok4",S,"                if visible_h && visible_v {\n                    child.render(canvas, scrolled_region);\n                }","                child.render(canvas, scrolled_region);")
m("ok5",IG,"        canvas.push_clip(inner_region);\n        for placement in self.compute_child_placements(inner_region, viewport) {\n            let child = &self.children[placement.child_index];\n            if !child.participates_in_layout() {\n                continue;\n            }\n            child.render(canvas, placement.region);\n        }\n        canvas.pop_clip();\n    }","        self.draw_children(canvas, inner_region, viewport);\n    }",)
M[-1]=("ok5","P05",[(IG,M[-1][3],M[-1][4]),(IG,"impl<M> ItemGrid<M> {","impl<M> ItemGrid<M> {\n    fn draw_children(&self, canvas: &mut Canvas, area: Region, viewport: layouts::Viewport) {\n        canvas.push_clip(area);\n        for placement in self.compute_child_placements(area, viewport) {\n            let child = &self.children[placement.child_index];\n            if child.participates_in_layout() {\n                child.render(canvas, placement.region);\n            }\n        }\n        canvas.pop_clip();\n    }\n")])
