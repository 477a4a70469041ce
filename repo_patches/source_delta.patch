From 7e9a8dbbd98af5a4a7a41824390f6248d3220d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:12 +0000
Subject: [PATCH 01/28] fix: forward every widget operation through Box<dyn
 Widget>

Inline styles, tooltips, focus, mouse blocking and the type name of a boxed
widget fell back to the trait defaults, so styling or focusing a Box<dyn Widget>
silently did nothing.
---
 crates/textual/src/widget.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/widget.rs b/crates/textual/src/widget.rs
index 5fe2d87..f522b63 100644
--- a/crates/textual/src/widget.rs
+++ b/crates/textual/src/widget.rs
@@ -627,6 +627,38 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
         self.as_mut().mark_clean();
     }
 
+    fn set_inline_style(&mut self, style: StyleOverride) {
+        self.as_mut().set_inline_style(style);
+    }
+
+    fn inline_style(&self) -> Option<&StyleOverride> {
+        self.as_ref().inline_style()
+    }
+
+    fn clear_inline_style(&mut self) {
+        self.as_mut().clear_inline_style();
+    }
+
+    fn tooltip(&self) -> Option<String> {
+        self.as_ref().tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.as_mut().set_tooltip(tooltip);
+    }
+
+    fn set_focus(&mut self, is_focused: bool) {
+        self.as_mut().set_focus(is_focused);
+    }
+
+    fn is_focused(&self) -> bool {
+        self.as_ref().is_focused()
+    }
+
+    fn blocks_mouse_events(&self) -> bool {
+        self.as_ref().blocks_mouse_events()
+    }
+
     fn pre_layout(&mut self, layout: &mut dyn Layout) {
         self.as_mut().pre_layout(layout);
     }
@@ -724,9 +756,7 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
     }
 
     fn type_name(&self) -> &'static str {
-        // Box<dyn Widget> should delegate to inner widget's type_name
-        // but we can't call it through trait object, so return generic name
-        "Widget"
+        self.as_ref().type_name()
     }
 
     fn sender_info(&self) -> SenderInfo {
-- 
2.43.0


From ab4e7cf887cefe9217eee3bc0274f8d77ecf303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:28 +0000
Subject: [PATCH 02/28] fix: let every widget with CSS classes edit and report
 them, and Tooltip honour set_visible

---
 .../src/containers/horizontal_scroll.rs       | 27 +++++++++++++++++++
 .../textual/src/containers/vertical_scroll.rs | 27 +++++++++++++++++++
 crates/textual/src/macros.rs                  | 20 ++++++++++++++
 crates/textual/src/widget/tooltip.rs          | 27 +++++++++++++++++++
 4 files changed, 101 insertions(+)

diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index fa28381..b7dcccf 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -144,6 +144,33 @@ HorizontalScroll {
         self.inner.mark_clean()
     }
 
+    fn add_class(&mut self, class: &str) {
+        if !self.classes.iter().any(|c| c == class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if let Some(pos) = self.classes.iter().position(|c| c == class) {
+            self.classes.remove(pos);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
+
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
         self.inner.on_event(key)
     }
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index 8f8e83d..af26d99 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -141,6 +141,33 @@ VerticalScroll {
         self.inner.mark_clean()
     }
 
+    fn add_class(&mut self, class: &str) {
+        if !self.classes.iter().any(|c| c == class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if let Some(pos) = self.classes.iter().position(|c| c == class) {
+            self.classes.remove(pos);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
+
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
         self.inner.on_event(key)
     }
diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 4ed56fe..25ab653 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -218,6 +218,26 @@ macro_rules! impl_widget_delegation {
             fn content_width_for_scroll(&self, available_width: u16) -> u16 {
                 self.$field.content_width_for_scroll(available_width)
             }
+
+            fn add_class(&mut self, class: &str) {
+                $crate::Widget::<$m>::add_class(&mut self.$field, class)
+            }
+
+            fn remove_class(&mut self, class: &str) {
+                $crate::Widget::<$m>::remove_class(&mut self.$field, class)
+            }
+
+            fn has_class(&self, class: &str) -> bool {
+                $crate::Widget::<$m>::has_class(&self.$field, class)
+            }
+
+            fn set_classes(&mut self, classes: &str) {
+                $crate::Widget::<$m>::set_classes(&mut self.$field, classes)
+            }
+
+            fn classes(&self) -> Vec<String> {
+                $crate::Widget::<$m>::classes(&self.$field)
+            }
         }
     };
 }
diff --git a/crates/textual/src/widget/tooltip.rs b/crates/textual/src/widget/tooltip.rs
index c0c6769..bb2cb86 100644
--- a/crates/textual/src/widget/tooltip.rs
+++ b/crates/textual/src/widget/tooltip.rs
@@ -178,6 +178,33 @@ Tooltip {
     fn is_visible(&self) -> bool {
         self.visible
     }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn add_class(&mut self, class: &str) {
+        Widget::<M>::add_class(&mut self.inner, class)
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        Widget::<M>::remove_class(&mut self.inner, class)
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        Widget::<M>::has_class(&self.inner, class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        Widget::<M>::set_classes(&mut self.inner, classes)
+    }
+
+    fn classes(&self) -> Vec<String> {
+        Widget::<M>::classes(&self.inner)
+    }
 }
 
 fn resolve_scalar_to_cells(value: &Scalar, available: Region, is_height: bool) -> i32 {
-- 
2.43.0


From 5d80ffc948ab32573d688e2a75dcaecf0a43c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:17 +0000
Subject: [PATCH 03/28] fix: mark widgets dirty when a class, visibility or
 focus change affects their style

---
 crates/textual/src/widget/command_palette.rs   | 2 +-
 crates/textual/src/widget/loading_indicator.rs | 5 ++++-
 crates/textual/src/widget/static_widget.rs     | 6 +++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index c533d7a..de055a3 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1863,7 +1863,7 @@ CommandPalette LoadingIndicator.--visible {
     }
 
     fn clear_focus(&mut self) {
-        self.focused = false;
+        self.set_focus(false);
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index 4468b2b..129b3c4 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -170,7 +170,10 @@ LoadingIndicator {
     }
 
     fn set_visible(&mut self, visible: bool) {
-        self.visible = visible;
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
     }
 
     fn is_loading(&self) -> bool {
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index cb0365a..5d727c3 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -163,7 +163,11 @@ impl<M> Static<M> {
 
     /// Add a single CSS class.
     pub fn add_class(&mut self, class: impl Into<String>) {
-        self.classes.push(class.into());
+        let class = class.into();
+        if !self.classes.contains(&class) {
+            self.classes.push(class);
+            self.dirty = true;
+        }
     }
 
     /// Set whether the widget expands to fill available space.
-- 
2.43.0


From fd58e19c7330c968add75bd70e4db467ebb968a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:12 +0000
Subject: [PATCH 04/28] fix: resolve theme variables in border title and
 subtitle styles

---
 crates/tcss/src/parser/cascade.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index a4fb433..8b2a278 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -332,10 +332,12 @@ fn apply_declaration(style: &mut ComputedStyle, decl: &Declaration, theme: &Them
             style.border_subtitle_background = Some(resolve_theme_color(c, theme));
         }
         Declaration::BorderTitleStyle(s) => {
-            style.border_title_style.merge(s);
+            let resolved = resolve_theme_style(s, theme);
+            style.border_title_style.merge(&resolved);
         }
         Declaration::BorderSubtitleStyle(s) => {
-            style.border_subtitle_style.merge(s);
+            let resolved = resolve_theme_style(s, theme);
+            style.border_subtitle_style.merge(&resolved);
         }
 
         // Edge-specific border properties
-- 
2.43.0


From 14e186497e2a4cda86390ec1dba3dd062d5ad7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 05/28] fix: a rule applies with the specificity of its most
 specific matching selector

---
 crates/tcss/src/parser/cascade.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index 8b2a278..cbfd0da 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -239,16 +239,20 @@ pub fn compute_style(
 
     // 1. Find all matching rules
     for (idx, rule) in stylesheet.rules.iter().enumerate() {
-        for complex in &rule.selectors.selectors {
-            if widget.matches_complex(complex, ancestors, &ctx) {
-                matched_rules.push(MatchedRule {
-                    specificity: complex.specificity(),
-                    source_order: idx,
-                    rule,
-                });
-                // Once one selector in a rule matches, the whole rule applies.
-                break;
-            }
+        // A rule applies with the specificity of its most specific matching selector.
+        let specificity = rule
+            .selectors
+            .selectors
+            .iter()
+            .filter(|complex| widget.matches_complex(complex, ancestors, &ctx))
+            .map(|complex| complex.specificity())
+            .max();
+        if let Some(specificity) = specificity {
+            matched_rules.push(MatchedRule {
+                specificity,
+                source_order: idx,
+                rule,
+            });
         }
     }
 
-- 
2.43.0


From 8b73f4e1cc30ea94809101cdf8f5d8339a163bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:42 +0000
Subject: [PATCH 06/28] fix: try every ancestor a descendant combinator allows
 when matching selectors

---
 crates/tcss/src/parser/cascade.rs | 91 +++++++++++--------------------
 1 file changed, 32 insertions(+), 59 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index cbfd0da..25154b9 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -27,7 +27,8 @@ use bitflags::bitflags;
 
 use crate::{
     parser::{
-        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, Specificity, StyleSheet,
+        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, SelectorPart,
+        Specificity, StyleSheet,
     },
     types::{Border, ComputedStyle, RgbaColor, Theme},
 };
@@ -152,78 +153,50 @@ impl WidgetMeta {
         ancestors: &[WidgetMeta],
         ctx: &SelectorContext,
     ) -> bool {
-        if complex.parts.is_empty() {
-            return false;
-        }
-
         // The rightmost part must match the widget itself.
         let parts = &complex.parts;
-        let mut current_part_idx = parts.len() - 1;
+        let Some((last, outer)) = parts.split_last() else {
+            return false;
+        };
 
-        if !parts[current_part_idx]
-            .compound
+        last.compound
             .selectors
             .iter()
             .all(|s| self.matches_selector(s, ctx))
-        {
-            return false;
-        }
+            && Self::matches_ancestors(outer, ancestors, ctx)
+    }
 
-        // If that was the only part, we matched.
-        if parts.len() == 1 {
+    /// Matches the remaining parts of a selector against the ancestors (nearest first),
+    /// trying every ancestor a descendant combinator allows.
+    fn matches_ancestors(
+        parts: &[SelectorPart],
+        ancestors: &[WidgetMeta],
+        ctx: &SelectorContext,
+    ) -> bool {
+        let Some((part, outer)) = parts.split_last() else {
             return true;
-        }
-
-        // Match remaining parts against ancestors.
-        let mut ancestor_idx = 0;
-        current_part_idx -= 1;
-
-        while current_part_idx < parts.len() && ancestor_idx < ancestors.len() {
-            let part = &parts[current_part_idx];
-            let ancestor = &ancestors[ancestor_idx];
-
-            let matches = part
-                .compound
+        };
+        let matches = |ancestor: &WidgetMeta| {
+            part.compound
                 .selectors
                 .iter()
-                .all(|s| ancestor.matches_selector(s, ctx));
+                .all(|s| ancestor.matches_selector(s, ctx))
+        };
 
-            match part.combinator {
-                Combinator::Child => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    } else {
-                        return false;
-                    }
-                    ancestor_idx += 1;
-                }
-                Combinator::Descendant | Combinator::None => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    }
-                    ancestor_idx += 1;
-                }
-                // FIX: Add explicit return to satisfy type checker
-                Combinator::AdjacentSibling | Combinator::GeneralSibling => {
-                    return false;
+        match part.combinator {
+            Combinator::Child => match ancestors.split_first() {
+                Some((parent, above)) => {
+                    matches(parent) && Self::matches_ancestors(outer, above, ctx)
                 }
+                None => false,
+            },
+            Combinator::Descendant | Combinator::None => {
+                ancestors.iter().enumerate().any(|(i, ancestor)| {
+                    matches(ancestor) && Self::matches_ancestors(outer, &ancestors[i + 1..], ctx)
+                })
             }
+            Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
         }
-
-        current_part_idx == usize::MAX
-            || current_part_idx == 0
-                && ancestor_idx < ancestors.len()
-                && parts[0]
-                    .compound
-                    .selectors
-                    .iter()
-                    .all(|s| ancestors[ancestor_idx].matches_selector(s, ctx))
     }
 }
 
-- 
2.43.0


From eac0e9e095f7badc6cb816518fedaa771f778de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:04 +0000
Subject: [PATCH 07/28] fix: an inline colour replaces an automatic stylesheet
 colour

---
 crates/tcss/src/types/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tcss/src/types/mod.rs b/crates/tcss/src/types/mod.rs
index 74b104b..1d58ff9 100644
--- a/crates/tcss/src/types/mod.rs
+++ b/crates/tcss/src/types/mod.rs
@@ -230,6 +230,7 @@ impl StyleOverride {
         }
         if let Some(color) = &self.color {
             style.color = Some(color.clone());
+            style.auto_color = color.auto;
         }
     }
 }
-- 
2.43.0


From d6d932d24958bcd9d76c0ba8b122fa89d5f43534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:18 +0000
Subject: [PATCH 08/28] fix: clearing focus or hover also reaches children that
 are currently hidden

---
 crates/textual/src/containers.rs            | 16 ++++------------
 crates/textual/src/containers/container.rs  |  8 ++------
 crates/textual/src/containers/grid.rs       |  8 ++------
 crates/textual/src/containers/item_grid.rs  |  8 ++------
 crates/textual/src/containers/scrollable.rs |  8 ++------
 crates/textual/src/widget/app_widget.rs     |  4 +---
 crates/textual/src/widget/screen.rs         |  8 ++------
 7 files changed, 15 insertions(+), 45 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 42cb4f6..be4b114 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -184,9 +184,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -205,9 +203,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
@@ -326,9 +322,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -347,9 +341,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cc6529e..cba368c 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1578,9 +1578,7 @@ Container {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1600,9 +1598,7 @@ Container {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 45082ba..e8ec87f 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -427,9 +427,7 @@ Grid {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -449,9 +447,7 @@ Grid {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 2c8e26f..476f495 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -308,9 +308,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -330,9 +328,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28593e2..67f351e 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1387,9 +1387,7 @@ ScrollableContainer {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1421,9 +1419,7 @@ ScrollableContainer {
     fn clear_hover(&mut self) {
         self.scrollbar_hover = None;
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 }
diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 9c0ef37..1d4c1e2 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -250,9 +250,7 @@ App {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index af87e7d..7e3012b 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1145,9 +1145,7 @@ Screen {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
@@ -1195,9 +1193,7 @@ Screen {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
-- 
2.43.0


From bc5662711f48eb55df5bed54fcd88a87e79b808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:45 +0000
Subject: [PATCH 09/28] fix: Center and Middle leave out a child with display:
 none; a disabled Button or Switch refuses focus

---
 crates/textual/src/containers.rs    | 24 ++++++++++++------------
 crates/textual/src/widget/button.rs |  2 +-
 crates/textual/src/widget/switch.rs |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index be4b114..e481304 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -131,7 +131,7 @@ impl<M> Center<M> {
 
 impl<M> Widget<M> for Center<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -145,7 +145,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.centered_region(region));
@@ -170,14 +170,14 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
@@ -188,14 +188,14 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
@@ -269,7 +269,7 @@ impl<M> Middle<M> {
 
 impl<M> Widget<M> for Middle<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -283,7 +283,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.middled_region(region));
@@ -308,14 +308,14 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
@@ -326,14 +326,14 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
diff --git a/crates/textual/src/widget/button.rs b/crates/textual/src/widget/button.rs
index 465a7cf..1acc75d 100644
--- a/crates/textual/src/widget/button.rs
+++ b/crates/textual/src/widget/button.rs
@@ -531,7 +531,7 @@ Button {
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if n == 0 {
+        if n == 0 && self.is_focusable() {
             self.set_focus(true);
             true
         } else {
diff --git a/crates/textual/src/widget/switch.rs b/crates/textual/src/widget/switch.rs
index c7ffbf8..a1a762e 100644
--- a/crates/textual/src/widget/switch.rs
+++ b/crates/textual/src/widget/switch.rs
@@ -297,7 +297,7 @@ where
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if n == 0 {
+        if n == 0 && self.is_focusable() {
             self.set_focus(true);
             true
         } else {
-- 
2.43.0


From 424f3764de4504d9c95d9bb4b910a14f2ed69e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:11 +0000
Subject: [PATCH 10/28] fix: the focus path leads to the widget that has the
 focus

---
 crates/textual/src/tree.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 552e11c..9115b43 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -152,10 +152,11 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
+        // The number of focusable widgets may have shrunk since the last change
         let prev = if self.current_focus_index == 0 {
             count - 1
         } else {
-            self.current_focus_index - 1
+            (self.current_focus_index - 1).min(count - 1)
         };
         if self.set_focus_index(prev) {
             Some(prev)
@@ -169,10 +170,6 @@ impl<M> WidgetTree<M> {
     /// This walks the tree to find the nth focusable widget and caches
     /// the path to it. Call this when focus changes.
     pub fn update_focus(&mut self, focus_index: usize) {
-        if focus_index == self.current_focus_index && !self.focus_path.indices.is_empty() {
-            return; // Path is already cached for this focus index
-        }
-
         self.focus_path.clear();
         self.current_focus_index = focus_index;
 
@@ -536,6 +533,9 @@ fn find_focus_path_recursive<M>(
             return true; // Found it!
         }
         *remaining -= 1;
+        if widget.count_focusable() == 1 {
+            return false; // Takes focus as a whole, including its parts
+        }
     }
 
     // Check children
@@ -543,7 +543,7 @@ fn find_focus_path_recursive<M>(
     for i in 0..child_count {
         path.push(i);
         if let Some(child) = widget.get_child_mut(i) {
-            if find_focus_path_recursive(child, path, remaining) {
+            if child.participates_in_layout() && find_focus_path_recursive(child, path, remaining) {
                 return true; // Found in this subtree
             }
         }
@@ -567,6 +567,9 @@ fn find_focus_index_by_id<M>(
             return Some(*index);
         }
         *index += 1;
+        if widget.count_focusable() == 1 {
+            return None; // Takes focus as a whole, including its parts
+        }
     }
 
     let child_count = widget.child_count();
-- 
2.43.0


From 138ff8f1cff4e0590c008973eab472ffab5c37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 11/28] fix: a link in a disabled Static does not run its
 action

---
 crates/textual/src/widget/static_widget.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 5d727c3..09e2917 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -969,7 +969,7 @@ Static {
         let local_y = (my - region.y) as usize;
 
         match event.kind {
-            MouseEventKind::Down(crossterm::event::MouseButton::Left) => {
+            MouseEventKind::Down(crossterm::event::MouseButton::Left) if !self.disabled => {
                 // Check if click is on a link
                 if let Some(action) = self.find_link_at(local_x, local_y) {
                     // Store the action for the app to consume
-- 
2.43.0


From 9bbead869dc94694947aec3bd2a44b6d8fcb5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 12/28] fix: AppWidget leaves hidden children out of drawing
 and input and keeps the first answer to a message

---
 crates/textual/src/widget/app_widget.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 1d4c1e2..0307ad8 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -62,7 +62,9 @@ App {
     fn render(&self, canvas: &mut Canvas, region: Region) {
         // Render children in order (later children overlay earlier ones)
         for child in &self.children {
-            child.render(canvas, region);
+            if child.participates_in_layout() {
+                child.render(canvas, region);
+            }
         }
     }
 
@@ -157,6 +159,9 @@ App {
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
         // Forward to the top-most child that handles the event
         for child in self.children.iter_mut().rev() {
+            if !child.participates_in_layout() {
+                continue;
+            }
             if let Some(msg) = child.on_event(key) {
                 return Some(msg);
             }
@@ -166,6 +171,9 @@ App {
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
         for child in self.children.iter_mut().rev() {
+            if !child.participates_in_layout() {
+                continue;
+            }
             let blocks_mouse = child.blocks_mouse_events();
             if let Some(msg) = child.on_mouse(event, region) {
                 return Some(msg);
@@ -183,6 +191,9 @@ App {
         region: Region,
     ) -> Option<(M, crate::widget::SenderInfo)> {
         for child in self.children.iter_mut().rev() {
+            if !child.participates_in_layout() {
+                continue;
+            }
             let blocks_mouse = child.blocks_mouse_events();
             if let Some(result) = child.on_mouse_with_sender(event, region) {
                 return Some(result);
@@ -217,11 +228,12 @@ App {
     }
 
     fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        let mut handled = None;
         for child in &mut self.children {
-            handled = child.handle_message(envelope);
+            if let Some(msg) = child.handle_message(envelope) {
+                return Some(msg);
+            }
         }
-        handled
+        None
     }
 
     // Focus delegation
-- 
2.43.0


From 03da97483e998741ece0e7efd151db33957228b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 13/28] fix: mouse events go to the child drawn under the
 pointer, and Center and Middle report the child as sender

---
 crates/textual/src/containers.rs           | 24 ++++++++
 crates/textual/src/containers/container.rs | 50 ++++++++++++---
 crates/textual/src/containers/grid.rs      | 12 +++-
 crates/textual/src/containers/item_grid.rs | 12 +++-
 crates/textual/src/widget/screen.rs        | 72 +++++++---------------
 5 files changed, 107 insertions(+), 63 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index e481304..a1b54bf 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -202,6 +202,18 @@ impl<M> Widget<M> for Center<M> {
         self.child_mut().on_mouse(event, centered)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, crate::widget::SenderInfo)> {
+        if !self.child().participates_in_layout() {
+            return None;
+        }
+        let centered = self.centered_region(region);
+        self.child_mut().on_mouse_with_sender(event, centered)
+    }
+
     fn clear_hover(&mut self) {
         self.child_mut().clear_hover();
     }
@@ -340,6 +352,18 @@ impl<M> Widget<M> for Middle<M> {
         self.child_mut().on_mouse(event, middled)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, crate::widget::SenderInfo)> {
+        if !self.child().participates_in_layout() {
+            return None;
+        }
+        let middled = self.middled_region(region);
+        self.child_mut().on_mouse_with_sender(event, middled)
+    }
+
     fn clear_hover(&mut self) {
         self.child_mut().clear_hover();
     }
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cba368c..7f2625e 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -174,11 +174,18 @@ impl<M> Container<M> {
             return false;
         }
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
+        let (layout_region, content_region) = self.child_regions(region);
+        if !content_region.contains_point(column, row) {
+            return false;
+        }
+        let placements = self.compute_child_placements(layout_region, viewport);
+        let (offset_x, offset_y) = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
         for placement in placements {
             let scrolled_region = Region {
-                x: placement.region.x,
+                x: placement.region.x - offset_x,
                 y: placement.region.y - offset_y,
                 width: placement.region.width,
                 height: placement.region.height,
@@ -256,6 +263,17 @@ impl<M> Container<M> {
         }
     }
 
+    /// The regions children are laid out in and clipped to, as in `render`.
+    fn child_regions(&self, region: Region) -> (Region, Region) {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        let content_region = self.content_region_for_scroll(inner_region);
+        if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
+            (content_region, content_region)
+        } else {
+            (inner_region, content_region)
+        }
+    }
+
     /// Calculate the vertical scrollbar region.
     fn vertical_scrollbar_region(&self, region: Region) -> Region {
         let style = &self.style.scrollbar;
@@ -1474,15 +1492,22 @@ Container {
         // Compute placements and dispatch mouse events
         // For mouse handling, approximate viewport as region (only available during render)
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let (layout_region, content_region) = self.child_regions(region);
+        if !content_region.contains_point(mx, my) {
+            return None;
+        }
+        let placements = self.compute_child_placements(layout_region, viewport);
 
         // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
+        let (offset_x, offset_y) = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
 
         for placement in placements {
             // Adjust placement for scroll offset when checking hit
             let scrolled_placement = Region {
-                x: placement.region.x,
+                x: placement.region.x - offset_x,
                 y: placement.region.y - offset_y,
                 width: placement.region.width,
                 height: placement.region.height,
@@ -1539,15 +1564,22 @@ Container {
         // Compute placements and dispatch mouse events
         // For mouse handling, approximate viewport as region (only available during render)
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let (layout_region, content_region) = self.child_regions(region);
+        if !content_region.contains_point(mx, my) {
+            return None;
+        }
+        let placements = self.compute_child_placements(layout_region, viewport);
 
         // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
+        let (offset_x, offset_y) = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
 
         for placement in placements {
             // Adjust placement for scroll offset when checking hit
             let scrolled_placement = Region {
-                x: placement.region.x,
+                x: placement.region.x - offset_x,
                 y: placement.region.y - offset_y,
                 width: placement.region.width,
                 height: placement.region.height,
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index e8ec87f..d074e42 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -371,7 +371,11 @@ Grid {
         // Compute placements first (borrows self immutably)
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
+        }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
         // Then iterate and dispatch mouse events (borrows self mutably)
         for placement in placements {
@@ -402,7 +406,11 @@ Grid {
         // Compute placements first (borrows self immutably)
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
+        }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
         for placement in placements {
             if placement.region.contains_point(mx, my) {
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 476f495..49d52c7 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -254,7 +254,11 @@ impl<M> Widget<M> for ItemGrid<M> {
 
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
+        }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
         for placement in placements {
             if placement.region.contains_point(mx, my) {
@@ -283,7 +287,11 @@ impl<M> Widget<M> for ItemGrid<M> {
 
         // For mouse handling, approximate viewport as region
         let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
+        }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
         for placement in placements {
             if placement.region.contains_point(mx, my) {
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 7e3012b..8525c5a 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -200,6 +200,24 @@ impl<M> Screen<M> {
         (virtual_width, virtual_height, max_from_auto)
     }
 
+    /// Where a child is drawn: docked and absolutely positioned children do not scroll.
+    fn scrolled_child_region(&self, placement: &layouts::WidgetPlacement) -> Region {
+        let scrolls = self.children.get(placement.child_index).is_some_and(|c| {
+            let style = c.get_style();
+            style.dock.is_none() && style.position != tcss::types::Position::Absolute
+        });
+        if !scrolls {
+            return placement.region;
+        }
+        let scroll = self.scroll.borrow();
+        Region {
+            x: placement.region.x - scroll.offset_x,
+            y: placement.region.y - scroll.offset_y,
+            width: placement.region.width,
+            height: placement.region.height,
+        }
+    }
+
     fn dispatch_mouse_to_children(
         &mut self,
         event: MouseEvent,
@@ -207,33 +225,9 @@ impl<M> Screen<M> {
         viewport: layouts::Viewport,
     ) -> Option<(M, crate::widget::SenderInfo)> {
         let placements = self.compute_child_placements(region, viewport);
-        let (offset_x, offset_y) = {
-            let scroll = self.scroll.borrow();
-            (scroll.offset_x, scroll.offset_y)
-        };
 
         for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            let scrolled_region = if let Some(child) = self.children.get(placement.child_index) {
-                let style = child.get_style();
-                if style.dock.is_none() && style.position != tcss::types::Position::Absolute {
-                    Region {
-                        x: scrolled_region.x - offset_x,
-                        y: scrolled_region.y - offset_y,
-                        width: scrolled_region.width,
-                        height: scrolled_region.height,
-                    }
-                } else {
-                    scrolled_region
-                }
-            } else {
-                scrolled_region
-            };
+            let scrolled_region = self.scrolled_child_region(&placement);
             if scrolled_region.contains_point(event.column as i32, event.row as i32) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
                     if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
@@ -564,23 +558,13 @@ Screen {
             scroll.set_viewport(content_region.width, content_region.height);
         }
 
-        let (offset_x, offset_y) = {
-            let scroll = self.scroll.borrow();
-            (scroll.offset_x, scroll.offset_y)
-        };
-
         canvas.push_clip(content_region);
         for placement in &placements {
             if let Some(child) = self.children.get(placement.child_index) {
                 if !child.participates_in_layout() {
                     continue;
                 }
-                let scrolled_region = Region {
-                    x: placement.region.x - offset_x,
-                    y: placement.region.y - offset_y,
-                    width: placement.region.width,
-                    height: placement.region.height,
-                };
+                let scrolled_region = self.scrolled_child_region(placement);
                 let visible_h = scrolled_region.x + scrolled_region.width > content_region.x
                     && scrolled_region.x < content_region.x + content_region.width;
                 let visible_v = scrolled_region.y + scrolled_region.height > content_region.y
@@ -931,15 +915,9 @@ Screen {
 
         // Compute placements and dispatch mouse events
         let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
 
         for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
+            let scrolled_region = self.scrolled_child_region(&placement);
             if scrolled_region.contains_point(mx, my) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
                     if let Some((msg, _sender)) = child.on_mouse_with_sender(event, scrolled_region)
@@ -1112,15 +1090,9 @@ Screen {
 
         // Compute placements and dispatch mouse events
         let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
 
         for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
+            let scrolled_region = self.scrolled_child_region(&placement);
             if scrolled_region.contains_point(mx, my) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
                     if let Some(result) = child.on_mouse_with_sender(event, scrolled_region) {
-- 
2.43.0


From 864b16f11354f5a728b0078796583838f41f772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 14/28] fix: a container does not keep a layout from before its
 children changed

---
 crates/textual/src/containers/container.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 7f2625e..0e8a4a7 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1432,6 +1432,8 @@ Container {
     }
 
     fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
+        // A child may be changed through the reference given out
+        *self.cached_layout.borrow_mut() = None;
         for child in &mut self.children {
             f(child.as_mut());
         }
@@ -1505,6 +1507,9 @@ Container {
         };
 
         for placement in placements {
+            if !self.children[placement.child_index].participates_in_layout() {
+                continue;
+            }
             // Adjust placement for scroll offset when checking hit
             let scrolled_placement = Region {
                 x: placement.region.x - offset_x,
@@ -1577,6 +1582,9 @@ Container {
         };
 
         for placement in placements {
+            if !self.children[placement.child_index].participates_in_layout() {
+                continue;
+            }
             // Adjust placement for scroll offset when checking hit
             let scrolled_placement = Region {
                 x: placement.region.x - offset_x,
@@ -1639,6 +1647,8 @@ Container {
     }
 
     fn get_child_mut(&mut self, index: usize) -> Option<&mut (dyn Widget<M> + '_)> {
+        // The child may be changed through the reference given out
+        *self.cached_layout.borrow_mut() = None;
         if index < self.children.len() {
             Some(self.children[index].as_mut())
         } else {
-- 
2.43.0


From ac126955a44c22fb9e225f91356be79f5e755b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 15/28] fix: where children overlap, the mouse goes to the one
 drawn on top

---
 crates/textual/src/containers/container.rs  |  4 ++--
 crates/textual/src/containers/grid.rs       |  4 ++--
 crates/textual/src/containers/item_grid.rs  |  4 ++--
 crates/textual/src/containers/scrollable.rs | 16 ++++++++--------
 crates/textual/src/widget/screen.rs         |  6 +++---
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 0e8a4a7..e5b0686 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1506,7 +1506,7 @@ Container {
             (scroll.offset_x, scroll.offset_y)
         };
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             if !self.children[placement.child_index].participates_in_layout() {
                 continue;
             }
@@ -1581,7 +1581,7 @@ Container {
             (scroll.offset_x, scroll.offset_y)
         };
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             if !self.children[placement.child_index].participates_in_layout() {
                 continue;
             }
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index d074e42..92f1be9 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -378,7 +378,7 @@ Grid {
         let placements = self.compute_child_placements(inner_region, viewport);
 
         // Then iterate and dispatch mouse events (borrows self mutably)
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(msg) =
                     self.children[placement.child_index].on_mouse(event, placement.region)
@@ -412,7 +412,7 @@ Grid {
         }
         let placements = self.compute_child_placements(inner_region, viewport);
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(result) = self.children[placement.child_index]
                     .on_mouse_with_sender(event, placement.region)
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 49d52c7..5876232 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -260,7 +260,7 @@ impl<M> Widget<M> for ItemGrid<M> {
         }
         let placements = self.compute_child_placements(inner_region, viewport);
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(msg) =
                     self.children[placement.child_index].on_mouse(event, placement.region)
@@ -293,7 +293,7 @@ impl<M> Widget<M> for ItemGrid<M> {
         }
         let placements = self.compute_child_placements(inner_region, viewport);
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             if placement.region.contains_point(mx, my) {
                 if let Some(result) = self.children[placement.child_index]
                     .on_mouse_with_sender(event, placement.region)
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 67f351e..4b42e14 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1041,7 +1041,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1066,7 +1066,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1091,7 +1091,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1117,7 +1117,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1229,7 +1229,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1259,7 +1259,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1287,7 +1287,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1314,7 +1314,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 8525c5a..bd81b8f 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -226,7 +226,7 @@ impl<M> Screen<M> {
     ) -> Option<(M, crate::widget::SenderInfo)> {
         let placements = self.compute_child_placements(region, viewport);
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             let scrolled_region = self.scrolled_child_region(&placement);
             if scrolled_region.contains_point(event.column as i32, event.row as i32) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
@@ -916,7 +916,7 @@ Screen {
         // Compute placements and dispatch mouse events
         let placements = self.compute_child_placements(layout_region, viewport);
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             let scrolled_region = self.scrolled_child_region(&placement);
             if scrolled_region.contains_point(mx, my) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
@@ -1091,7 +1091,7 @@ Screen {
         // Compute placements and dispatch mouse events
         let placements = self.compute_child_placements(layout_region, viewport);
 
-        for placement in placements {
+        for placement in placements.into_iter().rev() {
             let scrolled_region = self.scrolled_child_region(&placement);
             if scrolled_region.contains_point(mx, my) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
-- 
2.43.0


From de395d5fb0a5c18a3b719207605dec7ef9092494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:58 +0000
Subject: [PATCH 16/28] fix: a canvas of more than 65535 cells is not truncated

---
 crates/textual/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 0292538..4bc9cdb 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -140,7 +140,7 @@ impl Canvas {
             bg: None,
             attrs: TextAttributes::default(),
         };
-        let cell_count = (width * height) as usize;
+        let cell_count = width as usize * height as usize;
         Self {
             size: Size { width, height },
             cells: vec![blank_cell.clone(); cell_count],
-- 
2.43.0


From bd6497ad5c7420069a57b9ae637530c466bcf0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:31 +0000
Subject: [PATCH 17/28] fix: default stylesheets are combined in tree order,
 not hash order

---
 crates/textual/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index cf6273d..90fd99a 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -35,7 +35,7 @@ pub use crossterm::event::{
 use crossterm::{cursor, execute, terminal};
 use futures::StreamExt;
 use std::cell::Cell;
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 use std::time::{Duration, Instant};
 use tokio::sync::mpsc;
 
@@ -117,10 +117,10 @@ use crate::{
 /// Walks the widget tree and collects unique `default_css()` strings from all widgets.
 /// These are prepended to the app's CSS to ensure widget defaults are applied with
 /// lower specificity than app-level styles.
-fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'static str>) {
+fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {
     let default_css = widget.default_css();
-    if !default_css.is_empty() {
-        collected.insert(default_css);
+    if !default_css.is_empty() && !collected.contains(&default_css) {
+        collected.push(default_css);
     }
     widget.for_each_child(&mut |child| {
         collect_default_css(child, collected);
@@ -131,10 +131,10 @@ fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'
 ///
 /// Widget default CSS is prepended (lower specificity), so app CSS can override.
 fn build_combined_css<M: 'static>(root: &mut dyn Widget<M>, app_css: &str) -> String {
-    let mut defaults: HashSet<&'static str> = HashSet::new();
+    let mut defaults: Vec<&'static str> = Vec::new();
     collect_default_css(root, &mut defaults);
 
-    // Concatenate defaults (order doesn't matter, app CSS will override)
+    // Concatenate defaults in tree order: among rules of equal specificity the later wins
     let mut combined = String::new();
 
     // First add base widget CSS (universal defaults like scrollbar and link styling)
-- 
2.43.0


From 6746bed85db2601e3463c3763e59f928d3e02af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:31 +0000
Subject: [PATCH 18/28] fix: layers missing from the layer list are drawn in a
 fixed order

---
 crates/textual/src/layouts/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 5c559b5..497917d 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -815,6 +815,8 @@ fn build_layers<'a>(
 
     // Group children by their layer
     let mut layer_map: HashMap<String, Vec<&LayoutChild>> = HashMap::new();
+    // Layer names in the order they are first used, so that the result is always the same
+    let mut names: Vec<String> = Vec::new();
 
     for child in children {
         let layer_name = child
@@ -822,6 +824,9 @@ fn build_layers<'a>(
             .layer
             .clone()
             .unwrap_or_else(|| "default".to_string());
+        if !layer_map.contains_key(&layer_name) {
+            names.push(layer_name.clone());
+        }
         layer_map.entry(layer_name).or_default().push(child);
     }
 
@@ -829,9 +834,11 @@ fn build_layers<'a>(
 
     // First: add widgets on layers NOT in layer_order (they render at the bottom)
     // This matches Python where undefined layers default to index 0 (bottom-most)
-    for (name, widgets) in layer_map.iter() {
+    for name in &names {
         if !layer_order.contains(name) {
-            result.push((name.clone(), widgets.clone()));
+            if let Some(widgets) = layer_map.get(name) {
+                result.push((name.clone(), widgets.clone()));
+            }
         }
     }
 
-- 
2.43.0


From 49bc0623929922c596d1b7c2817e546299fa3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:31 +0000
Subject: [PATCH 19/28] fix: the screen is redrawn after keys and messages
 change widgets

---
 crates/textual/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 90fd99a..7307ac7 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -263,6 +263,7 @@ where
         .unwrap_or_default();
 
     if !events.is_empty() {
+        needs_render = true;
         let event_ctx = AppContext::new(tx.clone());
         let mut ctx = EventContext::new(event_ctx, tree);
         for event in events {
@@ -886,16 +887,15 @@ pub trait App {
                                     )
                                     .unwrap_or(false);
                                 // Global focus navigation (Tab / Shift+Tab)
-                                let mut focus_changed = false;
                                 match key_event.code {
                                     KeyCode::Tab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_next().is_some();
+                                            tree.focus_next();
                                         }
                                     }
                                     KeyCode::BackTab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_previous().is_some();
+                                            tree.focus_previous();
                                         }
                                     }
                                     _ => {}
@@ -946,7 +946,7 @@ pub trait App {
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
-                                needs_render = needs_render || focus_changed;
+                                needs_render = true;
                             }
                             Some(Ok(Event::Resize(nw, nh))) => {
                                 // Handle terminal window resizing
@@ -1100,9 +1100,8 @@ pub trait App {
                         let event_ctx = AppContext::new(tx.clone());
                         let mut ctx = EventContext::new(event_ctx, &mut tree);
                         self.handle_message(envelope, &mut ctx);
-                        if drain_command_palette(self, &mut tree, &tx) {
-                            needs_render = true;
-                        }
+                        let _ = drain_command_palette(self, &mut tree, &tx);
+                        needs_render = true;
                         // Check if app wants tree rebuild (Elm-style)
                         needs_recompose = self.needs_recompose();
                     }
-- 
2.43.0


From 2988158b2822217ba131b1a89a95580744d8aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 20/28] fix: the terminal is restored when an app ends by an
 error or a panic

---
 crates/textual/src/lib.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 7307ac7..f605cac 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -274,6 +274,34 @@ where
     needs_render
 }
 
+/// Restores the terminal when an app ends, also by an error, a panic or the
+/// future being dropped.
+struct TerminalGuard {
+    active: bool,
+}
+
+impl TerminalGuard {
+    fn restore(&mut self) -> std::io::Result<()> {
+        if !std::mem::take(&mut self.active) {
+            return Ok(());
+        }
+        let screen = execute!(
+            std::io::stdout(),
+            DisableMouseCapture,
+            cursor::Show,
+            terminal::LeaveAlternateScreen
+        );
+        let raw = terminal::disable_raw_mode();
+        screen.and(raw)
+    }
+}
+
+impl Drop for TerminalGuard {
+    fn drop(&mut self) {
+        let _ = self.restore();
+    }
+}
+
 /// The main application trait. Implement this to create a TUI application.
 ///
 /// The `Message` associated type (from `Compose`) defines the events your UI can produce.
@@ -651,6 +679,8 @@ pub trait App {
             let mut stdout = std::io::stdout();
             // Enable raw mode, mouse capture, and enter alternate screen
             terminal::enable_raw_mode()?;
+            // From here on the terminal is given back however this ends
+            let mut guard = TerminalGuard { active: true };
             execute!(
                 stdout,
                 terminal::EnterAlternateScreen,
@@ -661,13 +691,7 @@ pub trait App {
             let result = self.event_loop_async().await;
 
             // Cleanup: Restore terminal state on exit
-            execute!(
-                stdout,
-                DisableMouseCapture,
-                cursor::Show,
-                terminal::LeaveAlternateScreen
-            )?;
-            terminal::disable_raw_mode()?;
+            guard.restore()?;
 
             result
         }
-- 
2.43.0


From a5e48e4a580a62649c3a82a2446491bdca2cdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 21/28] fix: a cancelled interval could send one more message
 when a tick was due at the same time

---
 crates/textual/src/context.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/context.rs b/crates/textual/src/context.rs
index 7be3f27..03d4b37 100644
--- a/crates/textual/src/context.rs
+++ b/crates/textual/src/context.rs
@@ -148,6 +148,13 @@ impl<M: Send + 'static> AppContext<M> {
             log::debug!("INTERVAL: Task started, first tick at {:?}", start);
             loop {
                 tokio::select! {
+                    // Cancellation is looked at first: a cancelled interval sends
+                    // nothing more, even if a tick is due as well.
+                    biased;
+                    _ = &mut cancel_rx => {
+                        log::debug!("INTERVAL: Cancelled");
+                        break; // Cancelled
+                    }
                     _ = ticker.tick() => {
                         log::debug!("INTERVAL: Tick! Sending message");
                         let envelope = MessageEnvelope::new(message_fn(), sender_id.as_deref(), &sender_type);
@@ -156,10 +163,6 @@ impl<M: Send + 'static> AppContext<M> {
                             break; // Receiver dropped
                         }
                     }
-                    _ = &mut cancel_rx => {
-                        log::debug!("INTERVAL: Cancelled");
-                        break; // Cancelled
-                    }
                 }
             }
         });
-- 
2.43.0


From e2ebda0f92c93944ce6c5c8e42dda48a2f2960db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:11 +0000
Subject: [PATCH 22/28] fix: cached borders are not reused for a style that
 differs in opacity or attributes

---
 crates/textual/src/border_box.rs | 46 ++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/border_box.rs b/crates/textual/src/border_box.rs
index bcb0b9c..26ec856 100644
--- a/crates/textual/src/border_box.rs
+++ b/crates/textual/src/border_box.rs
@@ -8,6 +8,8 @@ use once_cell::sync::Lazy;
 use std::collections::HashMap;
 use std::sync::RwLock;
 
+use tcss::types::RgbaColor;
+
 use crate::border_chars::{get_border_chars, get_border_locations};
 use crate::segment::{Segment, Style};
 
@@ -22,18 +24,52 @@ struct BoxCacheKey {
     outer_style_key: StyleKey,
 }
 
-/// Simplified style key for caching (colors only, not all attributes).
+/// A color as part of a cache key: everything in which two colors can differ.
+#[derive(Hash, PartialEq, Eq, Clone, Debug)]
+struct ColorKey {
+    rgb: (u8, u8, u8),
+    alpha: u32,
+    ansi: Option<u8>,
+    auto: bool,
+    theme_var: Option<String>,
+}
+
+impl From<&RgbaColor> for ColorKey {
+    fn from(color: &RgbaColor) -> Self {
+        Self {
+            rgb: (color.r, color.g, color.b),
+            alpha: color.a.to_bits(),
+            ansi: color.ansi,
+            auto: color.auto,
+            theme_var: color.theme_var.clone(),
+        }
+    }
+}
+
+/// Style key for caching: the segments carry the whole style, so all of it counts.
 #[derive(Hash, PartialEq, Eq, Clone, Debug, Default)]
 struct StyleKey {
-    fg: Option<(u8, u8, u8)>,
-    bg: Option<(u8, u8, u8)>,
+    fg: Option<ColorKey>,
+    bg: Option<ColorKey>,
+    bold: bool,
+    dim: bool,
+    italic: bool,
+    underline: bool,
+    strike: bool,
+    reverse: bool,
 }
 
 impl From<&Style> for StyleKey {
     fn from(style: &Style) -> Self {
         Self {
-            fg: style.fg.as_ref().map(|c| (c.r, c.g, c.b)),
-            bg: style.bg.as_ref().map(|c| (c.r, c.g, c.b)),
+            fg: style.fg.as_ref().map(ColorKey::from),
+            bg: style.bg.as_ref().map(ColorKey::from),
+            bold: style.bold,
+            dim: style.dim,
+            italic: style.italic,
+            underline: style.underline,
+            strike: style.strike,
+            reverse: style.reverse,
         }
     }
 }
-- 
2.43.0


From e7cf57f6154fa3c6113f3ed55355dca6e23ae4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:32 +0000
Subject: [PATCH 23/28] fix: simplifying a strip keeps the metadata of its
 segments

---
 crates/textual/src/strip.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 7057158..41211d7 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -261,7 +261,7 @@ impl Strip {
         Strip::from_segments(segments)
     }
 
-    /// Merges adjacent segments with identical styles.
+    /// Merges adjacent segments with identical styles and metadata.
     ///
     /// This reduces memory usage and simplifies rendering.
     pub fn simplify(&self) -> Strip {
@@ -272,35 +272,32 @@ impl Strip {
         let mut result = SegmentVec::new();
         let mut current_text = String::new();
         let mut current_style: Option<Style> = None;
+        let mut current_meta: HashMap<String, String> = HashMap::new();
         let mut has_current = false;
 
         for segment in &self.segments {
             if !has_current {
                 current_text = segment.text().to_string();
                 current_style = segment.style().cloned();
+                current_meta = segment.meta().clone();
                 has_current = true;
-            } else if segment.style() == current_style.as_ref() {
-                // Same style, merge text
+            } else if segment.style() == current_style.as_ref() && *segment.meta() == current_meta {
+                // Same style and metadata, merge text
                 current_text.push_str(segment.text());
             } else {
-                // Different style, emit current and start new
+                // Different style or metadata, emit current and start new
                 if !current_text.is_empty() {
-                    match current_style {
-                        Some(s) => result.push(Segment::styled(current_text, s)),
-                        None => result.push(Segment::new(current_text)),
-                    }
+                    result.push(build_segment(&current_text, current_style, &current_meta));
                 }
                 current_text = segment.text().to_string();
                 current_style = segment.style().cloned();
+                current_meta = segment.meta().clone();
             }
         }
 
         // Emit final segment
         if !current_text.is_empty() {
-            match current_style {
-                Some(s) => result.push(Segment::styled(current_text, s)),
-                None => result.push(Segment::new(current_text)),
-            }
+            result.push(build_segment(&current_text, current_style, &current_meta));
         }
 
         Strip::from_smallvec(result)
-- 
2.43.0


From faf14ab04ec7cc924e75cfb6b25bc9adbcd17350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 24/28] fix: a segment hatched with a wide character knows its
 width

---
 crates/textual/src/segment.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/segment.rs b/crates/textual/src/segment.rs
index 054327b..0c3a550 100644
--- a/crates/textual/src/segment.rs
+++ b/crates/textual/src/segment.rs
@@ -392,10 +392,12 @@ impl Segment {
             },
         });
 
+        // The hatch character need not be as wide as the space it replaces
+        let cell_length = display_width(&new_text);
+
         Segment {
             text: new_text,
-            // Preserve cell_length: space and typical hatch chars are both width 1
-            cell_length: self.cell_length,
+            cell_length,
             style: new_style,
             meta: self.meta.clone(),
         }
-- 
2.43.0


From dee80588750feb35b6fff7c2776d0b9e92f642fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 25/28] fix: scrolling by a negative or huge amount stays
 within the content

scroll_up, scroll_down, scroll_left and scroll_right clamped only one end
of the range, so a negative amount scrolled past the other one, and a huge
amount overflowed.
---
 crates/textual/src/scroll.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/scroll.rs b/crates/textual/src/scroll.rs
index f36607c..d464ca4 100644
--- a/crates/textual/src/scroll.rs
+++ b/crates/textual/src/scroll.rs
@@ -94,22 +94,34 @@ impl ScrollState {
 
     /// Scroll up by given amount (clamped to bounds).
     pub fn scroll_up(&mut self, amount: i32) {
-        self.offset_y = (self.offset_y - amount).max(0);
+        self.offset_y = self
+            .offset_y
+            .saturating_sub(amount)
+            .clamp(0, self.max_scroll_y());
     }
 
     /// Scroll down by given amount (clamped to bounds).
     pub fn scroll_down(&mut self, amount: i32) {
-        self.offset_y = (self.offset_y + amount).min(self.max_scroll_y());
+        self.offset_y = self
+            .offset_y
+            .saturating_add(amount)
+            .clamp(0, self.max_scroll_y());
     }
 
     /// Scroll left by given amount (clamped to bounds).
     pub fn scroll_left(&mut self, amount: i32) {
-        self.offset_x = (self.offset_x - amount).max(0);
+        self.offset_x = self
+            .offset_x
+            .saturating_sub(amount)
+            .clamp(0, self.max_scroll_x());
     }
 
     /// Scroll right by given amount (clamped to bounds).
     pub fn scroll_right(&mut self, amount: i32) {
-        self.offset_x = (self.offset_x + amount).min(self.max_scroll_x());
+        self.offset_x = self
+            .offset_x
+            .saturating_add(amount)
+            .clamp(0, self.max_scroll_x());
     }
 
     /// Scroll to absolute position (clamped to bounds).
-- 
2.43.0


From 3bd681b5af351a44ba71ee40523a2d0013cfb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 26/28] fix: typing a combining character keeps the input's
 cursor inside the text

The character joins the one before the cursor, so the text gets no longer,
but the cursor moved on by one: it ended up behind the end of the text, and
the next Left key did nothing visible.
---
 crates/textual/src/widget/input.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 0957049..2cfe7c9 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -170,7 +170,8 @@ impl<M> Input<M> {
         let cursor = self.cursor.min(grapheme_count(&self.value));
         let byte_index = grapheme_byte_index(&self.value, cursor);
         self.value.insert(byte_index, ch);
-        self.cursor = cursor + 1;
+        // A combining character joins the one before it, so the cursor may not move
+        self.cursor = grapheme_count(&self.value[..byte_index + ch.len_utf8()]);
         self.refresh_display();
     }
 
-- 
2.43.0


From 33f8512550b5256409bcdd8c65771d42b0f0ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 27/28] fix: a click on an option list chooses the option drawn
 under the pointer

---
 crates/textual/src/containers/container.rs | 15 +++++++++-----
 crates/textual/src/widget/option_list.rs   | 24 ++--------------------
 2 files changed, 12 insertions(+), 27 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index e5b0686..8452be8 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -170,20 +170,25 @@ impl<M> Container<M> {
 
     /// Return true if any child occupies the given point within this container region.
     pub fn hit_test_children(&self, region: Region, column: i32, row: i32) -> bool {
+        self.child_at(region, column, row).is_some()
+    }
+
+    /// Return the index of the child shown at the given point within this container region.
+    pub fn child_at(&self, region: Region, column: i32, row: i32) -> Option<usize> {
         if !region.contains_point(column, row) {
-            return false;
+            return None;
         }
         let viewport = layouts::Viewport::from(region);
         let (layout_region, content_region) = self.child_regions(region);
         if !content_region.contains_point(column, row) {
-            return false;
+            return None;
         }
         let placements = self.compute_child_placements(layout_region, viewport);
         let (offset_x, offset_y) = {
             let scroll = self.scroll.borrow();
             (scroll.offset_x, scroll.offset_y)
         };
-        for placement in placements {
+        for placement in placements.iter().rev() {
             let scrolled_region = Region {
                 x: placement.region.x - offset_x,
                 y: placement.region.y - offset_y,
@@ -191,10 +196,10 @@ impl<M> Container<M> {
                 height: placement.region.height,
             };
             if scrolled_region.contains_point(column, row) {
-                return true;
+                return Some(placement.child_index);
             }
         }
-        false
+        None
     }
 
     /// Get the effective layout direction (override takes precedence over CSS).
diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index ab89dc6..5a6b8fd 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -71,7 +71,6 @@ pub struct OptionList<M> {
     inner: Container<M>,
     items: Vec<String>,
     disabled: Vec<bool>,
-    line_counts: Vec<usize>,
     selected: usize,
     focused: bool,
     dirty: bool,
@@ -88,7 +87,6 @@ impl<M: 'static> OptionList<M> {
             inner,
             items,
             disabled: Vec::new(),
-            line_counts: Vec::new(),
             selected: 0,
             focused: false,
             dirty: true,
@@ -223,12 +221,6 @@ impl<M: 'static> OptionList<M> {
     }
 
     fn refresh_display(&mut self) {
-        self.line_counts = self
-            .items
-            .iter()
-            .map(|item| item.split('\n').count().max(1))
-            .collect();
-
         let mut children: Vec<Box<dyn Widget<M>>> = Vec::with_capacity(self.items.len().max(1));
         for (index, item) in self.items.iter().enumerate() {
             let content = if self.allow_markup {
@@ -278,17 +270,6 @@ impl<M: 'static> OptionList<M> {
             }
         }
     }
-
-    fn index_for_row(&self, row: usize) -> Option<usize> {
-        let mut remaining = row;
-        for (index, count) in self.line_counts.iter().enumerate() {
-            if remaining < *count {
-                return Some(index);
-            }
-            remaining = remaining.saturating_sub(*count);
-        }
-        None
-    }
 }
 
 impl<M: 'static> Widget<M> for OptionList<M> {
@@ -349,9 +330,8 @@ OptionList > .option-list--option {
 
         match event.kind {
             MouseEventKind::Up(crossterm::event::MouseButton::Left) => {
-                let local_y = (my - region.y) as usize;
-                if let Some(index) = self.index_for_row(local_y) {
-                    if !self.disabled_at(index) {
+                if let Some(index) = self.inner.child_at(region, mx, my) {
+                    if index < self.items.len() && !self.disabled_at(index) {
                         if self.selected != index {
                             self.selected = index;
                             self.refresh_display();
-- 
2.43.0


From 22240c5f1b770e6a0645a7283034b6881f1475e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:27 +0000
Subject: [PATCH 28/28] fix: an SVG export keeps the unstyled text at a line's
 end

---
 crates/textual/src/svg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/svg.rs b/crates/textual/src/svg.rs
index d34615d..f3bd657 100644
--- a/crates/textual/src/svg.rs
+++ b/crates/textual/src/svg.rs
@@ -277,7 +277,9 @@ impl SvgRenderer {
 
                 // Check if we need to flush the current run
                 let style_changed = current_fg != run_fg || current_attrs != run_attrs;
-                if style_changed && !run_text.is_empty() {
+                // A line ends its last run too; blanks without a style show nothing
+                let line_ends = x == width as i32 && !run_text.trim().is_empty();
+                if (style_changed || line_ends) && !run_text.is_empty() {
                     let x_pos = (run_start as f32) * self.config.char_width;
                     let text_length = (run_cells as f32) * self.config.char_width;
                     let class_name = run_fg
-- 
2.43.0

