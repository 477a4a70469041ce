M=[('a1', 'P24', 'crates/textual/src/tree.rs', '        for depth in (0..path.len()).rev() {', '        for depth in (1..path.len()).rev() {'),
 ('a2', 'P24', 'crates/textual/src/tree.rs', '        for depth in (0..path.len()).rev() {', '        for depth in (0..=path.len()).rev() {'),
 ('a3', 'P24', 'crates/textual/src/tree.rs', '            if !envelope.is_bubbling() {\n                break;\n            }\n', ''),
 ('a4',
  'P24',
  'crates/textual/src/tree.rs',
  '            if let Some(new_msg) =\n                navigate_and_handle(self.root.as_mut(), ancestor_path, &mut envelope)\n            {\n                envelope.message = new_msg;\n            }',
  '            if let Some(new_msg) =\n                navigate_and_handle(self.root.as_mut(), ancestor_path, &mut envelope)\n            {\n                envelope.message = new_msg;\n                break;\n            }'),
 ('a5', 'P24', 'crates/textual/src/tree.rs', '            let ancestor_path = &path[..depth];', '            let ancestor_path = &path[path.len() - depth..];'),
 ('a6', 'P24', 'crates/textual/src/tree.rs', '            if let Some(new_msg) =\n                navigate_and_handle(self.root.as_mut(), ancestor_path, &mut envelope)\n            {\n                envelope.message = new_msg;\n            }', '            let _ = navigate_and_handle(self.root.as_mut(), ancestor_path, &mut envelope);'),
 ('a7', 'P24', 'crates/textual/src/tree.rs', '    if selector.matches(widget) {\n        f(widget);\n    }\n\n    // Recurse into children (continue after match, unlike query_one)', '    if selector.matches(widget) {\n        f(widget);\n        return;\n    }\n\n    // Recurse into children (continue after match, unlike query_one)'),
 ('a8', 'P24', 'crates/textual/src/tree.rs', '        if widget.type_name() != type_name {\n                return false;', '        if !widget.type_name().eq_ignore_ascii_case(type_name) {\n                return false;'),
 ('a9', 'P24', 'crates/textual/src/tree.rs', '            if widget.type_name() != type_name {', '            if !widget.type_name().starts_with(type_name.as_str()) {'),
 ('a10', 'P24', 'crates/textual/src/tree.rs', '        self.type_name.is_some() || self.id.is_some()', '        true'),
 ('a11', 'P24', 'crates/textual/src/tree.rs', '        if let Some(last_path) = paths.last() {', '        if let Some(last_path) = paths.iter().max() {'),
 ('a12', 'P24', 'crates/textual/src/tree.rs', '        self.for_each(|w| w.set_class(add, &class));', '        self.for_each(|w| w.set_class(!add, &class));'),
 ('a13', 'P24', 'crates/textual/src/tree.rs', '        self.for_each(|w| w.remove_class(&class));', '        self.for_each(|w| w.toggle_class(&class));'),
 ('a14', 'P24', 'crates/textual/src/tree.rs', '        if found.is_none() {\n            found = find_hovered_tooltip_mut(child);\n        }', '        found = find_hovered_tooltip_mut(child);'),
 ('a15', 'P24', 'crates/textual/src/tree.rs', '        if let Some(text) = widget.tooltip() {\n            return Some(text);\n        }', '        return widget.tooltip();'),
 ('a16',
  'P24',
  'crates/textual/src/tree.rs',
  '<M>(widget: &mut dyn Widget<M>) -> Vec<String> {\n    let mut actions = Vec::new();\n\n    // Check this widget for a pending action\n    if let Some(action) = widget.take_pending_action() {\n        actions.push(action);\n    }',
  '<M>(widget: &mut dyn Widget<M>) -> Vec<String> {\n    let mut actions = Vec::new();\n\n    // Check this widget for a pending action\n    if let Some(action) = widget.take_pending_action() {\n        actions.push(action);\n        return actions;\n    }'),
 ('a17', 'P24', 'crates/textual/src/tree.rs', '    widget.clear_hover();\n\n', '    if widget.child_count() == 0 {\n        widget.clear_hover();\n    }\n\n'),
 ('a18',
  'P24',
  'crates/textual/src/tree.rs',
  '        current_path.push(i);\n        if let Some(child) = widget.get_child_mut(i) {\n            collect_matching_paths(child, selector, current_path, paths);\n        }\n        current_path.pop();',
  '        current_path.push(i);\n        if let Some(child) = widget.get_child_mut(i) {\n            collect_matching_paths(child, selector, current_path, paths);\n            current_path.pop();\n        }'),
 ('a19', 'P24', 'crates/textual/src/tree.rs', '            self.tree.query_one_internal(&self.selector, f)', '            self.tree.query_one(self.selector.type_name.as_deref().unwrap_or(""), f)'),
 ('a20', 'P24', 'crates/textual/src/tree.rs', '    for &index in path {\n        match widget.get_child_mut(index) {\n            Some(child) => widget = child,\n            None => return None,\n        }\n    }', '    for &index in path.iter().rev() {\n        match widget.get_child_mut(index) {\n            Some(child) => widget = child,\n            None => return None,\n        }\n    }'),
 ('a21', 'P24', 'crates/textual/src/tree.rs', '    if selector.matches(widget) && filter(widget) {\n        f(widget);\n    }', '    if selector.matches(widget) {\n        if !filter(widget) {\n            return;\n        }\n        f(widget);\n    }'),
 ('a22', 'P24', 'crates/textual/src/tree.rs', '    if widget.id() == Some(id) {\n        f(widget);', '    if widget.id().unwrap_or("") == id {\n        f(widget);'),
 ('ok1', 'P24', 'crates/textual/src/tree.rs', '        for depth in (0..path.len()).rev() {\n            if !envelope.is_bubbling() {\n                break;\n            }\n', '        let mut depth = path.len();\n        while depth > 0 && envelope.is_bubbling() {\n            depth -= 1;\n'),
 ('ok2', 'P24', 'crates/textual/src/tree.rs', '    for &index in path {\n        match widget.get_child_mut(index) {\n            Some(child) => widget = child,\n            None => return None,\n        }\n    }\n    widget.handle_message(envelope)', '    for index in path.iter() {\n        widget = widget.get_child_mut(*index)?;\n    }\n    widget.handle_message(envelope)'),
 ('ok3', 'P24', 'crates/textual/src/tree.rs', '    if selector.matches(widget) && filter(widget) {\n        f(widget);\n        return true;\n    }', '    let hit = selector.matches(widget) && filter(widget);\n    if hit {\n        f(widget);\n        return true;\n    }'),
 ('ok4', 'P24', 'crates/textual/src/tree.rs', '        self.for_each(|_| count += 1);\n        count', '        self.for_each(|_| {\n            count += 1;\n        });\n        count'),
 ('ok5',
  'P24',
  'crates/textual/src/tree.rs',
  '        // Check type constraint if present\n'
  '        if let Some(ref type_name) = self.type_name {\n'
  '            if widget.type_name() != type_name {\n'
  '                return false;\n'
  '            }\n'
  '        }\n'
  '\n'
  '        // Check ID constraint if present\n'
  '        if let Some(ref id) = self.id {\n'
  '            if widget.id() != Some(id.as_str()) {\n'
  '                return false;\n'
  '            }\n'
  '        }\n'
  '\n'
  '        // If no constraints, match nothing (empty selector)\n'
  '        self.type_name.is_some() || self.id.is_some()',
  '        match (self.type_name.as_deref(), self.id.as_deref()) {\n            (None, None) => false,\n            (Some(t), None) => widget.type_name() == t,\n            (None, Some(id)) => widget.id() == Some(id),\n            (Some(t), Some(id)) => widget.type_name() == t && widget.id() == Some(id),\n        }'),
 ('ok6',
  'P24',
  'crates/textual/src/tree.rs',
  '        for &index in &path {\n            current = current.get_child_mut(index)?;\n        }\n\n        Some(f(current))',
  '        for &index in path.iter() {\n            match current.get_child_mut(index) {\n                Some(child) => current = child,\n                None => return None,\n            }\n        }\n\n        Some(f(current))'),
 ('ok7',
  'P24',
  'crates/textual/src/tree.rs',
  '    let child_count = widget.child_count();\n    for i in 0..child_count {\n        if let Some(child) = widget.get_child_mut(i) {\n            find_all_and_apply(child, selector, f);\n        }\n    }',
  '    let mut i = 0;\n    while i < widget.child_count() {\n        if let Some(child) = widget.get_child_mut(i) {\n            find_all_and_apply(child, selector, f);\n        }\n        i += 1;\n    }'),
 ('ok8', 'P24', 'crates/textual/src/tree.rs', '    let child_count = widget.child_count();\n    for i in 0..child_count {\n        if let Some(child) = widget.get_child_mut(i) {\n            find_all_and_apply(child, selector, f);\n        }\n    }', '    widget.for_each_child(&mut |child| {\n        find_all_and_apply(child, selector, f);\n    });'),
 ('ok9',
  'P24',
  'crates/textual/src/tree.rs',
  '        if let Some(last_path) = paths.last() {\n            // Navigate to the last matching widget\n            let mut current: &mut dyn Widget<M> = self.tree.root_mut();\n            for &index in last_path {\n                current = current.get_child_mut(index)?;\n            }\n            Some(f(current))\n        } else {\n            None\n        }',
  '        let last_path = paths.pop()?;\n        let mut current: &mut dyn Widget<M> = self.tree.root_mut();\n        for index in last_path {\n            current = current.get_child_mut(index)?;\n        }\n        Some(f(current))'),
 ('ok10',
  'P24',
  'crates/textual/src/tree.rs',
  '    for i in 0..child_count {\n        if let Some(child) = widget.get_child_mut(i) {\n            if find_and_apply_by_id(child, id, f) {\n                return true;\n            }\n        }\n    }\n    false',
  '    (0..child_count).any(|i| match widget.get_child_mut(i) {\n        Some(child) => find_and_apply_by_id(child, id, f),\n        None => false,\n    })')]
