S = "crates/textual/src/strip.rs"
G = "crates/textual/src/segment.rs"
M = [
 ("a1", "P22", G, "                cell_length: self.cell_length - cell_pos,", "                cell_length: self.cell_length - cut,"),
 ("a2", "P22", G, "            byte_pos = idx + grapheme.len();", "            byte_pos = idx + 1;"),
 ("a3", "P22", G, "            cell_pos += display_width(grapheme);", "            cell_pos += 1;"),
 ("a4", "P22", G, "            if cell_pos >= cut {\n                byte_pos = idx;", "            if cell_pos > cut {\n                byte_pos = idx;"),
 ("a5", "P22", G, "        if cut >= self.cell_length {", "        if cut + 1 >= self.cell_length {"),
 ("a6", "P22", G, "            Segment {\n                text: right_text.to_string(),\n                cell_length: self.cell_length - cell_pos,\n                style: self.style.clone(),\n                meta: self.meta.clone(),", "            Segment {\n                text: right_text.to_string(),\n                cell_length: self.cell_length - cell_pos,\n                style: self.style.clone(),\n                meta: HashMap::new(),"),
 ("a7", "P22", G, "            strike: self.strike || other.strike,", "            strike: self.strike || other.underline,"),
 ("a8", "P22", G, "            bg: other.bg.clone().or_else(|| self.bg.clone()),", "            bg: self.bg.clone().or_else(|| other.bg.clone()),"),
 ("a9", "P22", S, "            if seg_end <= start {", "            if seg_end < start + 1 && seg_len > 1 || seg_end <= start + 1 && seg_len == 1 {"),
 ("a10", "P22", S, "            let local_end = (end - current_pos).min(seg_len);", "            let local_end = (end - start).min(seg_len);"),
 ("a11", "P22", S, "segment.split_at(local_start);\n                let (middle, _) = temp.split_at(local_end - local_start);", "segment.split_at(local_start);\n                let (middle, _) = temp.split_at(local_end);"),
 ("a12", "P22", S, "            if cut > last && cut <= self.cell_length {", "            if cut > last && cut < self.cell_length {"),
 ("a13", "P22", S, "        if last < self.cell_length {\n            result.push(self.crop(last, self.cell_length));", "        if last + 1 < self.cell_length {\n            result.push(self.crop(last, self.cell_length));"),
 ("a14", "P22", S, "            } else if segment.style() == current_style.as_ref() && *segment.meta() == current_meta {", "            } else if segment.fg() == current_style.as_ref().and_then(|s| s.fg.as_ref()) && *segment.meta() == current_meta {"),
 ("a15", "P22", S, "            } else if segment.style() == current_style.as_ref() && *segment.meta() == current_meta {", "            } else if segment.style() == current_style.as_ref() && segment.meta().len() == current_meta.len() {"),
 ("a16", "P22", S, "                let right_pad = gap - left_pad;", "                let right_pad = gap / 2;"),
 ("a17", "P22", S, "                let left_pad = gap / 2;", "                let left_pad = (gap + 2) / 3;"),
 ("a18", "P22", S, "        if self.cell_length >= width {\n            return self.crop(0, width);\n        }\n\n        let gap = width", "        if self.cell_length > width {\n            return self.crop(0, width - 1);\n        }\n\n        let gap = width"),
 ("a19", "P22", S, "                segments.push(blank.with_meta(meta));", "                segments.push(blank);"),
 ("a20", "P22", S, "                Some(style) => Segment::styled(segment.text(), style).with_meta(meta),", "                Some(style) => Segment::styled(segment.text(), style),"),
 ("a21", "P22", S, "                let blank = Segment::blank(segment.cell_length(), blank_style);", "                let blank = Segment::blank(segment.text().len(), blank_style);"),
 ("a22", "P22", S, "            let meta = seg.meta();\n            let mut buffer", "            let empty = HashMap::new();\n            let meta = &empty;\n            let mut buffer"),
 ("a23", "P22", S, "    fn from_smallvec(segments: SegmentVec) -> Self {\n        let cell_length = segments.iter().map(|s| s.cell_length()).sum();", "    fn from_smallvec(segments: SegmentVec) -> Self {\n        let cell_length = segments.iter().map(|s| s.text().chars().count()).sum();"),
 ("a24", "P22", S, "        for strip in strips {\n            segments.extend(strip.segments);", "        for strip in strips {\n            if strip.cell_length == 0 || strip.segments.len() > 64 {\n                continue;\n            }\n            segments.extend(strip.segments);"),
 ("a25", "P22", S, "            .map(|seg| seg.apply_tint(tint))", "            .filter(|seg| !seg.is_empty()).skip_while(|seg| seg.text() == \" \")\n            .map(|seg| seg.apply_tint(tint))"),
 ("a26", "P22", S, "                let padding = Segment::blank(length - self.cell_length, pad_style);", "                let padding = Segment::blank(length - self.cell_length, None);\n                let _ = pad_style;"),
 ("a27", "P22", S, "            std::cmp::Ordering::Greater => self.crop(0, length),", "            std::cmp::Ordering::Greater => self.crop(self.cell_length - length, self.cell_length),"),
 ("a28", "P22", S, "        if start >= end || start >= self.cell_length {", "        if start >= end || start + 1 >= self.cell_length {"),
 ("a29", "P22", G, "    pub fn with_style(mut self, style: Style) -> Self {\n        self.style = Some(style);", "    pub fn with_style(mut self, style: Style) -> Self {\n        self.meta.retain(|k, _| k != \"link\");\n        self.style = Some(style);"),
 ("a30", "P22", G, "            Some(current) => current.apply(style),", "            Some(current) => style.apply(current),"),
 ("ok1", "P22", S, "            if cut > last && cut <= self.cell_length {\n                result.push(self.crop(last, cut));\n                last = cut;\n            }", "            if cut <= last || self.cell_length < cut {\n                continue;\n            }\n            let piece = self.crop(last, cut);\n            last = cut;\n            result.push(piece);"),
 ("ok2", "P22", S, "        let segments: Vec<_> = self.segments.iter().map(|s| s.apply_style(style)).collect();\n        Strip::from_segments(segments)", "        let mut out = SegmentVec::new();\n        for s in self.segments.iter() {\n            out.push(s.apply_style(style));\n        }\n        Strip::from_smallvec(out)"),
 ("ok3", "P22", S, "                let padding = Segment::blank(length - self.cell_length, pad_style);\n                let mut segments = self.segments.clone();\n                segments.push(padding);\n                Strip::from_smallvec(segments)", "                self.padded_right(length - self.cell_length, pad_style)"),
 ("ok4", "P22", S, "            let seg_len = segment.cell_length();\n            let seg_end = current_pos + seg_len;\n\n            // Skip segments entirely before start\n            if seg_end <= start {\n                current_pos = seg_end;\n                continue;\n            }\n\n            // Stop after end\n            if current_pos >= end {\n                break;\n            }", "            let seg_len = segment.cell_length();\n            if end <= current_pos {\n                break;\n            }\n            let seg_end = seg_len + current_pos;\n            if start >= seg_end {\n                current_pos += seg_len;\n                continue;\n            }"),
 ("ok5", "P22", G, "        for (idx, grapheme) in grapheme_indices(&self.text) {\n            if cell_pos >= cut {\n                byte_pos = idx;\n                break;\n            }\n            cell_pos += display_width(grapheme);\n            byte_pos = idx + grapheme.len();\n        }", "        for (idx, grapheme) in grapheme_indices(&self.text) {\n            cell_pos += display_width(grapheme);\n            byte_pos = idx + grapheme.len();\n            if cell_pos >= cut {\n                break;\n            }\n        }"),
 ("ok6", "P22", G, "        let (left_text, right_text) = self.text.split_at(byte_pos);", "        let left_text = &self.text[..byte_pos];\n        let right_text = &self.text[byte_pos..];"),
 ("ok7", "P22", G, "            bold: self.bold || other.bold,", "            bold: self.bold | other.bold,"),
 ("ok8", "P22", G, "            fg: other.fg.clone().or_else(|| self.fg.clone()),", "            fg: match &other.fg {\n                Some(c) => Some(c.clone()),\n                None => self.fg.clone(),\n            },"),
 ("ok9", "P22", S, "        self.segments.iter().map(|s| s.text()).collect()", "        let mut out = String::new();\n        for s in &self.segments {\n            out.push_str(s.text());\n        }\n        out"),
 ("ok10", "P22", S, "        let cell_length = segments.iter().map(|s| s.cell_length()).sum();\n        Self {\n            segments: SegmentVec::from_vec(segments),\n            cell_length,\n        }", "        Self::from_smallvec(SegmentVec::from_vec(segments))"),
 ("ok11", "P22", S, "        for strip in strips {\n            segments.extend(strip.segments);\n        }", "        for strip in strips {\n            for segment in strip.segments {\n                segments.push(segment);\n            }\n        }"),
 ("ok12", "P22", S, "        let cell_length = segments.iter().map(|s| s.cell_length()).sum();\n        Self {\n            segments,", "        let mut cell_length = 0;\n        for s in segments.iter() {\n            cell_length += s.cell_length();\n        }\n        Self {\n            segments,"),
 ("ok13", "P22", S, "                if left_pad > 0 {\n                    segments.push(Segment::blank(left_pad, pad_style.clone()));\n                }", "                if left_pad != 0 {\n                    let blank = Segment::blank(left_pad, pad_style.clone());\n                    segments.push(blank);\n                }"),
 ("ok14", "P22", S, "            } else if segment.style() == current_style.as_ref() && *segment.meta() == current_meta {\n", "            } else if *segment.meta() == current_meta && current_style.as_ref() == segment.style() {\n"),
 ("ok15", "P22", S, "            AlignHorizontal::Right => {\n                // Padding at start, content at end\n                let padding = Segment::blank(gap, pad_style);\n                let mut segments: SegmentVec = smallvec![padding];\n                segments.extend(self.segments.iter().cloned());", "            AlignHorizontal::Right => {\n                let padding = Segment::blank(gap, pad_style);\n                let mut segments: SegmentVec = SegmentVec::new();\n                segments.push(padding);\n                segments.extend(self.segments.clone());"),
 ("ok16", "P22", G, "        Segment {\n            text: self.text.clone(),\n            cell_length: self.cell_length,\n            style,\n            meta: self.meta.clone(),\n        }", "        let mut out = self.clone();\n        out.style = style;\n        out"),
]
for i, m in enumerate(M):
    if m[0] == "ok3":
        M[i] = ("ok3", "P22", ((S, m[3], m[4]), (S, "    pub fn adjust_cell_length(", "    fn padded_right(&self, n: usize, style: Option<Style>) -> Strip {\n        let mut segments = self.segments.clone();\n        segments.push(Segment::blank(n, style));\n        Strip::from_smallvec(segments)\n    }\n\n    pub fn adjust_cell_length(")))
