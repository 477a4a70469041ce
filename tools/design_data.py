ORACLE = {
 "P01": "the boxed widget's own method, as resolved by the compiler; the list of methods is the trait's.",
 "P02": "the getter evaluated symbolically in the setter's post-state.",
 "P03": "the fields that get_meta, has_class, id, inline_style and the state bits read, computed from those functions.",
 "P13": "the stylesheet vocabulary (property name to style slots), written down in the rule from the Textual CSS documentation, about 90 names.",
 "P14": "the statement's own order of resolution (literal, theme lookup, variants, alpha).",
 "P15": "the CSS specificity order (ids, classes, types, source order).",
 "P17": "the Textual CSS vocabulary of keywords, units and symbols, written down in the rule.",
 "P27": "the CSS meaning of each selector kind and pseudo-class; the field each setter stores.",
 "P29": "a must-analysis: at each write of a symbol the tracked terminal state equals the cell's.",
 "P06": "linear inequalities: written implies inside; not written implies outside.",
 "P05": "linear inequalities: clip inside the content area; skipped implies no common point.",
 "P11": "a typestate automaton: free, raw, guarded, given back.",
 "P20": "a typestate automaton per spawned task, with tokio's documented semantics.",
 "P21": "a state set per program point: dirty, styled, drawn, flushed; the loop may wait only in flushed or unchanged.",
 "P16": "a table of order-insensitive consumers (keyed insert, min/max with a total order, all/any, sort by a distinguishing key).",
 "P18": "the fields the stored value depends on, computed by the analysis.",
 "P10": "the invariant 0 <= offset <= max(0, content - visible), assumed before and entailed after; the meaning of the input names (ScrollDown, PageUp, Home, ...).",
 "P12": "the meaning of the editing keys; one character is the byte range of one extended grapheme cluster.",
  "P33": "in range and enabled, or the search failed both ways; the meaning of Up, Down and a released left button.",
 "P19": "the cells themselves: what is written for a column is compared with the cell's symbol, colour, attributes and width; XML's markup characters.",
 "P25": "the dynamic borrow rule of RefCell and non-reentrancy of locks, applied to live ranges.",
 "P22": "the width of a segment is the display width of its text; the width of a strip is the sum over its segments.",
}
CAUGHT = {}
TAIL = """## Genuine defects found

Each was shown against the real code before it was repaired (a `fix:` commit in /repo, listed in `known_findings.txt`), and the corresponding
rule reports it again when the commit is reverted. One is recorded instead of repaired: `testing::build_combined_css` joins default
stylesheets in hash order (P16); it is test support, which this task leaves alone.

## False alarms met while building, and what was done

* Rules that named a function's shape (a `for` loop, an early return) alarmed on the same code with an iterator chain or an extracted helper; the
  normaliser in `sa/ir.py` was extended until both give the same graph (the `ok*` entries in `tools/seedspec/` are kept as regression).
* P31/P32 first demanded that a child is tested at the place it is used; a layout that only contains participating children is as good, so the rule
  follows where the placements come from.
* P05 first demanded the clip to be the content area; inside it is enough, with a separate obligation that no child in it is left out.
* P16 first counted every walk over a hash map; walks whose result is combined by an order-insensitive operation are now recognised by effect.
* P29: the known case of half of a wide character being overwritten is outside the statement (see its limits).

"""
MUTATIONS = """## Mutation campaign

`tools/mut.py` applies the changes in `tools/seedspec/m_*.py` one by one to a scratch copy, compiles them, and runs the named rules: entries starting with `a`
must be reported, entries starting with `ok` (helpers extracted, loops rewritten, statements reordered, combinators exchanged) must stay quiet. All
entries currently do what their name says.
"""
