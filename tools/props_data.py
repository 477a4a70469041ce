TW = "crates/textual/src/widget"
prop("P01", "A boxed widget behaves exactly like the widget inside it",
     "Every operation of the widget interface performed on a boxed widget reaches the widget inside the box exactly once, "
     "with the same arguments, and returns that widget's own answer. In particular no operation is answered by the interface's "
     "default behaviour when the widget inside the box answers it differently.",
     ["programs", "histories"], "every widget type, every operation of the widget interface, every argument",
     "Widget trees hold children as boxes, so a single missing or mis-wired forward silently disables a feature for nested "
     "widgets only; the tests call operations mostly on concrete widgets and sample a handful of the ~60 operations through a box.",
     ["crates/textual/src/widget.rs"],
     [("forwarding implementation of the widget interface for boxes", "crates/textual/src/widget.rs (impl Widget for Box<dyn Widget>)")],
     technique="MIR value-flow: per-path call and return-value equivalence of the forwarding impl",
     note="Decides, for all paths of each forwarding method, that the boxed widget's method is called once with the caller's arguments and its result returned.")
prop("P02", "Widget state reads back exactly what was set",
     "For every widget, after its visibility, loading, disabled, focus, tooltip, border title, border subtitle, inline style or CSS class "
     "set is changed through the widget interface, the corresponding query reports the new value and the style engine sees the same one. "
     "Adding, removing, testing and replacing CSS classes all act on one and the same set of classes.",
     ["programs", "histories"], "every widget type, every prior state, every value set",
     "There are 32 widget types times nine facets, most of which are thin wrappers around another widget; tests exercise a few facets of a few widgets.",
     [TW + "/*.rs", "crates/textual/src/containers/*.rs"],
     [("setters and getters of each widget", "impl Widget for * in crates/textual/src/widget, crates/textual/src/containers"),
      ("style metadata", "get_meta of each widget")],
     technique="MIR value-flow: getter evaluated symbolically in each path's post-state of the setter",
     note="Per widget type and facet, over all paths of the setter; calls into std collections are modelled by their contract.")
prop("P03", "No change to style-relevant state goes unnoticed by restyling",
     "Whenever an operation on a widget leaves different any state its styling depends on (CSS classes, id, inline style, visibility, focus, "
     "hover, active, disabled or loading state, border titles), the widget reports itself as needing restyling when the operation returns. "
     "This holds for every operation, on every path through it.",
     ["programs", "histories"], "every widget type, every operation that can mutate it, every path and prior state",
     "A missed dirty flag only shows when the change is not accompanied by another that sets the flag; tests sample a few operations and check the final style only.",
     [TW + "/*.rs", "crates/textual/src/containers/*.rs"],
     [("dirty flag", "is_dirty/mark_dirty of each widget"), ("style-relevant fields", "get_meta/get_state/inline_style of each widget")],
     technique="MIR value-flow: may-change of style-relevant fields against dirty flag in every path's post-state",
     note="Relevant fields are derived from what the widget's own selector metadata reads; every &mut method is explored path by path with helpers inlined.")
TC = "crates/tcss/src"
prop("P13", "A style declaration sets exactly the style slot its property names",
     "For every property name the stylesheet language recognises, a declaration of that property sets exactly the part or parts of the computed "
     "style that the name stands for, to the declared value or values in the order written, and changes no other part. A four-sided property sets "
     "all four sides, a one-sided one only its own side.",
     ["inputs", "programs"], "every recognised property name (about 90), every declared value, every prior style",
     "The mapping goes through two large tables (name to declaration kind, kind to style slot); a swapped or missing entry affects one property only and tests sample a few.",
     [TC + "/parser/*.rs", TC + "/types/*.rs"],
     [("declaration parser", TC + "/parser/mod.rs"), ("declaration application", TC + "/parser/cascade.rs")],
     technique="MIR value-flow: composition of the parser's name table with the per-declaration post-state of the style",
     note="All names and all paths of the applying function; the expected slot table is the language's own vocabulary.")
prop("P14", "Theme variables are resolved against the active theme",
     "Every colour and text style a declaration puts into a computed style is resolved against the active theme: a literal is used unchanged; a "
     "variable the theme defines takes the theme's value; the lighten and darken modifiers of a variable name are computed by lightening and "
     "darkening respectively; and an explicit alpha given with the variable is kept.",
     ["inputs", "programs"], "every colour- or text-style-valued property, every theme, every variable name and alpha",
     "There are over 35 colour or text-style slots, each of which can bypass the resolver on its own; tests use literal colours almost everywhere.",
     [TC + "/parser/cascade.rs", TC + "/types/theme.rs"],
     [("theme resolvers", TC + "/parser/cascade.rs (resolve_theme_color and text-style resolver)")],
     technique="MIR value-flow: every themed slot's value is a resolver result; path-by-path check of the resolver",
     note="All themed slots and all paths of the resolvers; numeric lighten/darken steps are not decided.")
prop("P15", "The cascade lets the most specific, then the latest, matching rule win",
     "Among the rules that match a widget, the one whose matching selector has more ids, then more classes and pseudo-classes, then more types wins; "
     "between equals the later one wins; a rule with several matching selectors counts with its most specific one. A child combinator matches only the "
     "direct parent, a descendant combinator any ancestor allowed by the rest of the selector. Inline styles override whatever the stylesheet set "
     "and leave alone what they do not mention.",
     ["inputs", "programs"], "every stylesheet, every widget ancestry, every inline style",
     "Conflicts between rules depend on combinations of selectors, order and ancestry that tests only sample.",
     [TC + "/parser/cascade.rs", TC + "/parser/stylesheet.rs", TC + "/types/style_override.rs"],
     [("specificity", TC + "/parser/stylesheet.rs"), ("rule matching and ordering", TC + "/parser/cascade.rs"), ("inline override", TC + "/types")],
     technique="MIR value-flow: column-wise specificity accounting, sort-key order, combinator recursion and inline-slot rules",
     note="All selector kinds, all comparator outcomes, all paths of the combinator search and of the inline override.")
prop("P27", "Selectors match exactly the widget state they name",
     "A type, id or class selector matches a widget exactly when its name equals the widget's type or id or one of its classes; the universal selector "
     "always matches; each pseudo-class matches exactly when the state it names holds for the widget or theme (focus, hover, active, disabled, dark, light, "
     "and so on), and an unknown pseudo-class never matches. Each widget reports a state bit exactly when the state was set on it.",
     ["inputs", "programs", "histories"], "every selector, every widget type, every combination of widget states",
     "State bits combine freely and each widget type reports them itself; tests check single states of a few widgets.",
     [TC + "/parser/cascade.rs", TW + "/*.rs", "crates/textual/src/containers/*.rs"],
     [("simple selector matching", TC + "/parser/cascade.rs"), ("state reporting", "get_state/get_meta of each widget")],
     technique="MIR value-flow: selector-kind and pseudo-class decision table; per-widget state bit against setter field",
     note="All selector kinds and pseudo-class names; all widgets that report states.")
TXP = "crates/textual/src"
prop("P17", "Keywords, units and symbols of stylesheets mean what they say",
     "Every keyword value, unit suffix and selector or combinator symbol the stylesheet language accepts yields the value it names (for example "
     "'round' the round border, 'fr' a fraction, '>' the child combinator), in any letter case where the language ignores case, and text-style words each set exactly "
     "their own flag. Spacing shorthands with one, two or four values and scrollbar-size pairs assign the values to the sides in the documented order.",
     ["inputs"], "every keyword, unit, symbol and text-style word of the language, every value count",
     "About 120 keywords in a dozen tables; one wrong entry only affects styles that use it, and tests use few of them.",
     [TC + "/parser/*.rs"],
     [("keyword tables", TC + "/parser/values.rs"), ("selector and combinator symbols", TC + "/parser/selectors.rs"), ("units", TC + "/parser/units.rs")],
     technique="MIR value-flow: keyword guards against constructed enum variants; consumption depth of each side's value",
     note="All constructions of the language's enums inside the parser crate; the three-value spacing form is not decided.")
prop("P04", "Restyling reaches every visible widget that needs it",
     "A restyling pass gives every visible widget that reports needing it, and everything visible below a restyled widget, a style computed by the cascade from "
     "that widget's own state, its true chain of ancestors, the active stylesheet and the active theme; only then is the widget marked clean. "
     "Children are visited whether or not their parent needed restyling.",
     ["inputs", "histories"], "every widget tree, every combination of dirty and visible flags, every depth",
     "Which widgets are dirty depends on the history of changes; tests restyle whole fresh trees of depth two.",
     [TXP + "/style_resolver.rs", TXP + "/lib.rs"],
     [("recursive restyling pass", TXP + "/style_resolver.rs")],
     technique="MIR path analysis: must-visit, must-restyle, clean-after-restyle and balanced ancestor stack on every path",
     note="All paths of the recursive pass and of its entry points.")
prop("P26", "Inherited style values come from the nearest ancestor that sets them",
     "After restyling, a widget whose own rules set no text colour has its parent's final colour (and automatic-contrast mark), one whose rules set it keeps its own; "
     "visibility is the parent's exactly when no rule sets it; and the background a widget is drawn over is the nearest ancestor's effective background, where "
     "translucent backgrounds are blended over and opaque ones replace what lies beneath.",
     ["inputs", "histories"], "every widget tree, every combination of set and unset colours, visibilities, tints and alphas along an ancestor chain",
     "Inheritance composes along chains of any length, with tint and alpha at each level; tests use chains of one or two.",
     [TXP + "/style_resolver.rs"],
     [("inherited context", TXP + "/style_resolver.rs")],
     technique="MIR path-sensitive value-flow: each inherited slot's value on every path against its inheritance rule",
     note="All paths through one level; the statement for chains follows by induction over the recursive call's context.")
prop("P07", "Keyboard focus visits every focusable widget exactly once, in tree order",
     "For every widget tree, moving focus forward visits each focusable widget that takes part in layout exactly once, in tree order, and then wraps round; "
     "moving backward is the reverse. The number of focusable widgets, the widget that receives focus number n, the number found for a widget's id and the recorded "
     "focus path always agree with each other, hidden or disabled widgets are never counted or focused, and focus is taken from every widget before another receives it. "
     "Asking for a widget that does not exist leaves a false result.",
     ["inputs", "histories"], "every widget tree, every combination of hidden and disabled widgets, every focus number and id",
     "Focus is counted, given and located by separate traversals in each container type and in the tree; they agree on the small fixed trees of the tests but must agree on all.",
     [TXP + "/tree.rs", TXP + "/containers/*.rs", TW + "/*.rs"],
     [("counting and giving focus per widget type", "count_focusable, focus_nth, clear_focus of each widget"), ("focus path, search by id, next/previous", TXP + "/tree.rs")],
     technique="MIR path analysis: inductive agreement of count, give and locate traversals, per widget type and for the tree",
     note="All widget types and all paths of the traversals; statement for trees follows by induction over the child relation.")
prop("P09", "A widget's children are reached consistently and completely",
     "For every widget with children, the number of children, access to child number i, and iteration over the children describe the same children in the same order, "
     "and taking focus or hover away from a widget takes it away from every one of its children, shown or hidden.",
     ["inputs", "histories"], "every widget type, every number of children, every index, shown or hidden children",
     "Each container type implements the traversals itself; tests visit a few containers with one or two visible children.",
     [TW + "/*.rs", TXP + "/containers/*.rs", TXP + "/widget.rs"],
     [("child access and traversal of each widget", "child_count, get_child_mut, for_each_child, clear_focus, clear_hover of each widget")],
     technique="MIR path analysis: every traversal covers one and the same collection, without skipping or stopping",
     note="All widget types; all paths of each traversal.")
prop("P08", "A disabled widget does not act on input",
     "While a widget is disabled, no key or mouse event makes it produce a message, run or queue an action, call its callback, take focus or change any of its state "
     "other than how it looks while hovered or pressed.",
     ["inputs", "programs", "histories"], "every widget type that can be disabled, every key and mouse event, every prior state of the widget",
     "Each widget type guards its own handlers; tests send one or two events to some disabled widgets.",
     [TW + "/*.rs"],
     [("input handlers of each widget", "on_event, on_mouse, on_mouse_with_sender, is_focusable of each widget with a disabled flag")],
     technique="MIR value-flow under the assumption disabled = true: no message, no state change, no callback on any feasible path",
     note="All widget types with a disabled flag, all handler paths with calls resolved into the widgets they wrap.")
prop("P31", "Hidden children are left out of layout, drawing and input",
     "A child that does not take part in layout (hidden, or display: none) is never laid out, drawn, hovered or given a key or mouse event by its container; the layout it is left out of "
     "is never an earlier one from before it was hidden. Each child that is laid out is laid out with its own index, style and size. A key event is offered, unchanged, to "
     "every participating child in turn until one answers with a message, and that message is the container's answer; messages passed down are answered the same way.",
     ["inputs", "histories"], "every container type, every combination of shown and hidden children, every event, every history of showing and hiding",
     "Each container type has its own loops for layout, drawing, keys and mouse; tests hide a child in one or two of them.",
     [TXP + "/containers/*.rs", TXP + "/containers.rs", TW + "/screen.rs", TW + "/app_widget.rs"],
     [("layout, drawing and input loops of each container", "compute_child_placements, render, on_event, on_mouse, on_mouse_with_sender, handle_message")],
     technique="MIR path analysis: participates_in_layout known true at every draw or input call; offer-until-answered loops; provenance of placements",
     note="All widget types that own children; all paths of their loops.")
prop("P32", "The mouse acts on the widget that is drawn under the pointer",
     "For every container, style, scroll position and pointer position, the child that receives a mouse event is one whose drawn region contains the pointer, it is told that same region, "
     "and where children overlap the one drawn last is asked first. The region a child is hit-tested and addressed with is the same function of its placement and the scroll position as "
     "the region it is drawn in, and both use a layout of the same area. The child's answer is the container's answer, with the sender reported on the sender path.",
     ["inputs", "histories"], "every container type, style, scroll offset, pointer position and set of overlapping children",
     "Drawing and mouse handling compute regions separately in each container; tests click unscrolled containers without borders or layers.",
     [TXP + "/containers/*.rs", TXP + "/containers.rs", TW + "/screen.rs", TW + "/app_widget.rs", TXP + "/canvas.rs"],
     [("drawing and mouse dispatch of each container", "render, on_mouse, on_mouse_with_sender, hit_test_children"), ("hit test", TXP + "/canvas.rs Region::contains_point")],
     technique="MIR value-flow: symbolic comparison of the regions used for drawing, hit test and dispatch; traversal direction",
     note="All widget types that draw children; regions compared as linear forms over placement, scroll and style.")
prop("P24", "Searches, bulk operations and bubbling reach exactly the widgets they name",
     "In every widget tree, a search by id, by type or by selector tests each widget itself and then its children in order, acts exactly once, on the first widget that matches, and reports "
     "whether it did; a query's for_each and its bulk operations act exactly once on every widget that matches the selector and the query's filter, with the operation and arguments given; "
     "first and last act on the first and last match. A selector matches when every part it states (type, id) is equal to the widget's, and an empty one matches nothing. A message bubbles from the "
     "parent of the focused widget to the root, one ancestor at a time while it bubbles, and a handler's answer replaces it. Pending actions, hover clearing and tooltips are collected from the whole tree.",
     ["inputs", "histories"], "every tree shape, every selector and filter, every focus path, every handler's answer",
     "The traversals are a dozen near-identical recursive functions; tests use small trees in which stopping early, skipping or acting twice does not show in all of them.",
     [TXP + "/tree.rs"],
     [("recursive traversals", "find_and_apply_by_id, find_and_apply_by_type, find_and_apply_by_selector(_typed), find_all_and_apply(_filtered), collect_matching_paths(_filtered), find_first_filtered"),
      ("bulk queries", "DOMQuery"), ("bubbling and dispatch", "bubble_message, with_focused, dispatch_key"), ("whole-tree collection", "collect_pending_actions_mut, clear_all_hover, find_hovered_tooltip_mut")],
     technique="MIR path analysis of each traversal: test-then-act-then-all-children schema, argument identity, stop conditions; walker pattern for paths",
     note="All recursive functions over widgets; all paths of each. Parsing of the selector text is not covered.")
prop("P06", "Drawing lands exactly where it is asked to, inside the canvas and the clip",
     "For every position, text, clip and canvas size: a text drawn at a position stores each of its characters in its own column, one after the other by display width, with the colours and attributes "
     "given, and marks the further columns of a wide character; a character is stored if and only if all of its columns lie inside the active clip and the canvas, so no cell outside is ever changed. "
     "The active clip is always the exact intersection of the canvas and every region pushed and not yet popped. Strips are drawn segment after segment, one row below the other, with their own attributes.",
     ["inputs", "histories"], "every position (also off-screen), every text, every nesting of clips, every canvas size",
     "Off-by-one and sign errors at the edges of a clip show only for particular positions, widths and nestings.",
     [TXP + "/canvas.rs"],
     [("drawing primitives", "put_char, put_str, put_grapheme, render_strip(s)"), ("clip stack", "push_clip, pop_clip, current_clip"), ("region arithmetic", "Region::intersection"), ("construction", "Canvas::new")],
     technique="MIR dataflow and linear-inequality entailment (Fourier-Motzkin) of clip and canvas bounds from branch facts at every cell write and every way round one",
     note="All writers of the cell buffers. Integer overflow of positions near i32::MAX is not modelled; blending of translucent colours is not covered.")
prop("P05", "Children are drawn clipped to their container, and every clip is undone",
     "For every container that draws children by a layout, every tree, scroll position and region: children are drawn only while a clip is active that lies inside the area the container's border and "
     "padding leave (on all four sides); no child is left out of drawing whose region has a point in common with that area (unless it takes no part in layout); and every clip set is undone, on every path, "
     "so that drawing one widget never changes what its siblings or parents may draw on.",
     ["inputs", "histories"], "every tree, scroll position, border, padding and region, every path through drawing",
     "A clip that is a column too wide, a visibility test off by one or a clip left behind on an early return shows only for particular scroll positions, paddings or empty trees.",
     [TXP + "/containers/*.rs", TW + "/screen.rs"],
     [("drawing of children", "Widget::render of Container, Screen, ScrollableContainer, Grid, ItemGrid"), ("clip stack", "Canvas::push_clip, pop_clip"), ("content area", "containers::inner_region and friends")],
     technique="MIR clip-depth balance analysis over every path (typestate) plus linear-inequality entailment (Fourier-Motzkin) for clip bounds and visibility tests",
     note="Assumes border, padding and scrollbar sizes are what the named style accessors report; integer overflow near i32::MAX not modelled. The dialog popup and overlays that draw outside their parent on purpose are not containers in this sense.")
prop("P29", "What is flushed to the terminal is exactly what was drawn",
     "For every sequence of frames: flushing a canvas writes every changed cell that starts a character, at that cell's row and column, with exactly that cell's colours and attributes, whatever "
     "colours, attributes and cursor position the cells before it left behind; a cell is left out only if it equals the cell the terminal already shows there or is the tail of a wide character; "
     "afterwards the frame shown is the one the next frame is compared with, and each frame starts from an empty canvas. The first frame is written in full.",
     ["inputs", "histories"], "every content of two successive frames, every order of colours and attributes, every canvas size",
     "The flush only writes differences from a tracked terminal state: one forgotten reset shows only for particular neighbours of cells and particular previous frames.",
     [TXP + "/canvas.rs", TXP + "/lib.rs"],
     [("flush", "Canvas::flush and everything it calls"), ("frames", "App event loop: clear, render, flush"), ("empty canvas", "Canvas::clear")],
     technique="MIR must-dataflow over the flush with callees inlined: terminal colours, attributes and cursor known equal to the cell's wherever its symbol is written",
     note="Every path of the flush; what the terminal does with an escape sequence is crossterm's. The case of a wide character of which only the second half is overwritten with a tail is not covered.")
prop("P21", "What changes is drawn before the app waits again",
     "For every history of keys, mouse events, resizes, messages, timer ticks and focus changes: whatever may have changed a widget, the tree or the canvas (a handler of the app, an event given to a "
     "widget, a focus change, a rebuild, the command palette, the tooltip) is restyled, drawn and flushed before the event loop waits for the next event; a result that tells whether something "
     "changed is acted upon, and a helper that changes something says so. After the terminal changed its size, canvas, widget tree and drawn region all have the new size.",
     ["histories", "schedules", "inputs"], "every sequence of events, every interleaving of timers, terminal events and messages, every answer of the app's handlers",
     "The loop redraws only when a flag was set on the way; tests drive widgets without the loop, so a missing or lost flag shows only at run time.",
     [TXP + "/lib.rs", TW + "/command_palette.rs"],
     [("event loop", "App::event_loop_async"), ("command palette", "drain_command_palette, CommandPalette::drain_updates, tick"), ("resize", "Canvas::new, Widget::on_resize, Region::from_u16")],
     technique="MIR set-of-states dataflow over the event loop's coroutine through its suspension points: dirty/styled/drawn/flushed typestate",
     note="What an app's own handlers do is taken to change something each time. A widget's own timers and tasks reach the loop only as messages.")
prop("P20", "Timers fire exactly once; intervals tick until they are cancelled",
     "For every delay, period, interleaving of tasks and moment of cancellation: a one-shot timer sends its message exactly once, and only after the whole delay has passed; an interval sends its first "
     "message one full period after it was started and then exactly one per tick; once its handle is cancelled or dropped it sends nothing more, even if a tick is due at that very moment, and cancelling is always "
     "noticed; the interval ends when nobody receives its messages any more. Every message carries the caller's message and the sender of the context it was made in, and the contexts given to "
     "widgets hand their calls on unchanged.",
     ["schedules", "histories", "inputs"], "every delay and period, every interleaving of the timer tasks with cancellation and the receiver's end",
     "Whether a tick wins against a cancellation due at the same moment is decided by the scheduler; tests of timers sample one timing.",
     [TXP + "/context.rs"],
     [("timers", "AppContext::set_timer, set_interval, post"), ("handle", "IntervalHandle::cancel, Drop"), ("delegating contexts", "MountContext, EventContext")],
     technique="MIR typestate over the coroutines of the spawned tasks, through their suspension points; select order; argument identity",
     note="What tokio's sleep, interval_at and oneshot do is taken from their documentation. A message already in the channel when the interval is cancelled is still delivered.")
prop("P11", "However an app ends, the terminal is given back",
     "On every way an app's run can end - quitting, an error from the terminal at any point after raw mode was entered, a panic in a handler or while drawing, or the future being dropped at any wait - raw mode is "
     "left, the alternate screen is left, mouse capture is switched off and the cursor is shown again; a failure of one of these steps does not skip the others. The app only ever runs while this is assured.",
     ["crash points", "histories", "schedules"], "every call that can fail or panic, every suspension point, from entering raw mode to the end of the run",
     "Tests never enter raw mode, and the error, panic and drop paths between entering and leaving it are not executed by any of them.",
     [TXP + "/lib.rs"],
     [("run", "App::run_inner"), ("guard", "TerminalGuard and its Drop")],
     technique="MIR typestate over the coroutine that enters raw mode (free/raw/guarded/given back) plus a must-reach analysis of the guard's destructor",
     note="Assumes panics unwind (the crates do not set panic = abort) and that destructors run; a signal that kills the process is out of reach.")
prop("P16", "The same input always gives the same result, whatever the hash order",
     "Parsing, styling, layout, drawing and SVG export never depend on the iteration order of a hash map or set, nor on the clock, the environment or random numbers: two runs over the same stylesheet, tree, theme and "
     "events compute the same styles, placements and cells. Where a hash container is walked, the result is put into a keyed container, combined by an operation that does not see the order, or sorted by something that tells all elements apart "
     "before it is used.",
     ["inputs", "schedules", "histories"], "every hash seed, every content of every hash map and set, every moment",
     "The hash seed changes from run to run, so a dependence shows only as a test that fails now and then, or never when the map holds one element.",
     [TXP + "/**/*.rs", TC + "/**/*.rs", "crates/rich/src/**/*.rs"],
     [("walks over hash containers", "every call on a HashMap or HashSet or one of their iterators"), ("producers", "tcss, rich, Widget::render, desired_size, Layout, canvas, strip, content, svg, style_resolver")],
     technique="MIR effect analysis of every consumer of a hash-ordered iterator; call-graph reachability of clock, environment and randomness",
     note="Debug formatting of hash containers (log output) is not covered. Animation frames are state advanced by timer messages, not read from the clock while drawing.")
prop("P18", "A cache never answers with something made for other inputs",
     "For every history of calls: a result that is kept to be given out again (the border pieces, a container's child placements) is only given for inputs equal in everything the result is computed from. Everything a kept value is "
     "computed from is part of the key it is kept under, and looked up by; the placements a container keeps are given only for the region and viewport they were computed for, and are forgotten by every operation that "
     "changes the container's style or children, or hands out a child that may be changed.",
     ["histories", "inputs"], "every sequence of calls with every pair of inputs, every order of changes and layouts",
     "A key that leaves out one field answers correctly until two inputs meet that differ in just that field; a test would have to guess the pair.",
     [TXP + "/border_box.rs", TXP + "/containers/container.rs"],
     [("keyed cache", "border_box::get_box, BoxCacheKey"), ("memo", "Container::compute_child_placements and all that writes its fields")],
     technique="MIR value-flow dependency analysis: fields the stored value depends on against fields the key keeps apart; must-invalidate dataflow for memos",
     note="A conversion of a field into the key is taken as telling values apart only when it is a copy, a clone or a bit pattern. What a child changes behind interior mutability is not covered.")
prop("N01", "Layout gives every child the size and place its style asks for",
     "For every tree, style and available area, the vertical, horizontal, grid and dock layouts give each child exactly the width, height and position that its units, fractions, margins, alignment and minimum and maximum sizes define, and the "
     "fractional children of a row share the remaining space completely.",
     ["inputs"], "every number of children, every combination of units, every available size",
     "The results are sums over any number of children with rounding; tests sample a few trees.",
     [TXP + "/layouts/*.rs", TXP + "/fraction.rs"],
     [("layouts", "VerticalLayout, HorizontalLayout, GridLayout, dock layout"), ("sharing", "resolve_fr and friends, Fraction")],
     na="The claim is about sums and roundings over unboundedly many runtime sizes; deciding it needs loop invariants over numeric sequences (deduction or symbolic execution), which no dataflow or type-level argument in reach gives. What can be decided "
        "structurally about layouts is part of P05 (clipping), P31 (who takes part), P32 (one placement for drawing and hit testing) and P16 (determinism).")
prop("N02", "Wrapping and folding text loses, adds and reorders nothing",
     "For every text and width, the lines a Content is wrapped into contain all of its graphemes in order, each at most the asked width (except a single grapheme wider than it), with the style and link of every grapheme kept.",
     ["inputs"], "every text (wide, combining, control characters), every width",
     "Word boundaries, wide characters and span offsets interact; tests sample short ASCII texts.",
     [TXP + "/content.rs", "crates/rich/src/*.rs"],
     [("wrapping", "Content::wrap and what it calls"), ("spans", "Span offsets in characters")],
     na="It is a statement about the contents of strings built in nested loops with index arithmetic on runtime data; the invariants (offsets into text equal to the sum of the pieces emitted so far) are beyond a flow analysis. Carrying the pieces once built is "
        "covered: P22 for segments and strips, P06 for putting them on the canvas.")
prop("N03", "The stylesheet parser accepts or rejects every text without panicking",
     "For every input text the parser returns a stylesheet or an error in bounded time; it never panics, overflows the stack or drops a rule silently after a malformed one.",
     ["inputs"], "every text", "Malformed texts are endless; tests sample a few.",
     [TC + "/parser/*.rs"], [("parser", "parse_stylesheet and the nom combinators below it")],
     na="Panic freedom rests on where nom combinators stop in the text (slices at positions found by search at run time) and termination on the nesting depth of the input; neither is bounded by anything visible in the source. A static list of unwrap/slice sites "
        "would either alarm on correct code or excuse the sites that matter.")
prop("N04", "Colour arithmetic stays in range and rounds as documented",
     "Blending, lightening, darkening, tinting and contrast choice give colours whose channels and alpha lie in range and equal the documented formula up to rounding.",
     ["inputs"], "every pair of colours and every factor", "The formulas are floating point; tests compare a few colours.",
     [TC + "/types/color.rs"], [("colours", "RgbaColor::blend_toward, tint, lighten, darken, get_contrasting_color")],
     na="Numeric equality of floating-point formulas; a static rule could only restate the formula as written, and would then alarm on an equivalent rewriting.")
prop("P22", "Cutting, padding and restyling lines loses no text, style, link or width",
     "For every segment and strip: the recorded width is always the display width of the text; restyling (style, tint, hatch, opacity) gives one piece for each segment, in order, with its metadata (links), and its text and attributes "
     "wherever it is not asked to change them, the style laid on top winning over the one below field by field; splitting a segment gives two sides that together are the segment, each with its style and metadata; padding and aligning give a line of exactly the width asked that contains the "
     "line once and otherwise blanks in the padding style, on the side the alignment says; cropping takes exactly the cells from start to end, dividing cuts at every cut inside the line and drops nothing; simplifying only joins neighbours with equal style and metadata.",
     ["inputs"], "every text (wide and combining characters included), style, metadata, cut, range and width",
     "Lines are cut at runtime positions through any mix of segments; a lost link or a width one off shows only for particular cuts and contents.",
     [TXP + "/segment.rs", TXP + "/strip.rs"],
     [("segments", "Segment::new, styled, blank, split_at, apply_style, set_style, apply_tint, apply_hatch, with_style, with_meta; Style::apply"),
      ("strips", "Strip::from_segments, apply_*, crop, divide, simplify, join, adjust_cell_length, text_align, justify, text")],
     technique="MIR value-flow analysis: paired values through loops (position and width), contents of containers path by path, linear-inequality entailment for ranges and widths",
     note="A cut through the middle of a wide character keeps the whole character on the left, as documented, so the exact width of such a cut is not covered; nor is how justify spreads the extra blanks.")

prop("P10", "A scrollable area stays within its content and follows each scroll input",
     "After every operation on a scroll state (steps, pages, jumps, a change of the content or of the visible size) both offsets lie between zero and what the content exceeds the visible size by; a step moves by the amount asked for, or to the "
     "end when there is less room, on its own axis and in its own direction, and changes nothing else. Each wheel movement, key and scrollbar drag that a container, a scrollable container or a screen answers moves the axis it stands "
     "for in the direction it stands for whenever there is room; Home and End go to the start and to the end.",
     ["inputs", "histories"], "every offset, amount (negative and huge ones included), position, content size and visible size; every sequence of scroll inputs, resizes and content changes",
     "Which of the bounds is hit depends on the sizes at run time and on what was scrolled before; tests try a few sizes, and an offset one past the end shows as a blank row or as clicks that hit the wrong child.",
     [TXP + "/scroll.rs", TW + "/screen.rs", TXP + "/containers/scrollable.rs", TXP + "/containers/container.rs"],
     [("scroll state", "ScrollState: every method"),
      ("inputs", "on_event, on_mouse and on_mouse_with_sender of Container, ScrollableContainer and Screen")],
     technique="MIR value-flow with inlined state methods: linear-inequality entailment of an inductive invariant on every path, and per-input direction and axis of every assignment of an offset",
     note="That a drag puts the thumb exactly under the pointer is floating-point proportion and not covered, only its axis and bounds are; integers are taken not to overflow; the visible size is taken to be non-negative for page steps.")

prop("P12", "A text input is edited at the cursor, whole characters at a time, and shows it",
     "A typed character goes in at the cursor and the cursor ends up behind it; Backspace and Delete remove exactly one whole character (grapheme cluster), the one before or at the cursor; arrows, Home and End move the cursor by one "
     "character or to an end. The cursor never lies outside the text, whatever text is set. Every change of the text, cursor, placeholder or focus is shown, and what is shown is the text before, at and behind the cursor, once each and with "
     "markup characters escaped.",
     ["inputs", "histories"], "every text (combining and multi-codepoint characters included), cursor position, key sequence and value set in between",
     "Bytes, code points and characters only differ for texts the tests do not type; a cursor outside the text needs a particular history of edits and set values.",
     [TW + "/input.rs", TXP + "/grapheme.rs"],
     [("editing", "Input::on_event, set_value, set_cursor, set_focus and the other operations"),
      ("display", "Input::refresh_display, build_display, escape_markup"),
      ("characters", "grapheme_count, grapheme_byte_index, grapheme_byte_range")],
     technique="MIR value-flow: path-wise effect summaries per key with linear-inequality entailment of the cursor invariant; must-follow check of the display refresh",
     note="Uses that the character count of a text is at least that of each of its prefixes; what is a character is decided by the unicode-segmentation crate.")

prop("P19", "An SVG export shows all text and backgrounds of the screen, safely escaped",
     "Exporting any screen to SVG writes every cell: each character once, in a text element that starts at its run's column and line, has the class of its own colour and is bold, italic, underlined or struck out exactly as the cell is; "
     "neighbouring cells share an element only if their colour and attributes are equal; every background is a rectangle of its colour over exactly its columns, beneath the text; nothing is lost at a line's end (except unstyled blanks); "
     "no character of the text reaches the document as markup; and each colour used has one class of its own, defined as that colour.",
     ["inputs"], "every screen content: characters, widths, colours and attributes of every cell",
     "Runs end where colour, attributes, wide characters and the line's end fall together; the snapshots hold a few screens.",
     [TXP + "/svg.rs"],
     [("text", "SvgRenderer::write_text, escape_xml, build_text_decoration"),
      ("backgrounds and colours", "SvgRenderer::write_backgrounds, color_to_hex, write_styles"),
      ("classes", "SvgRenderer::collect_styles, StyleCollector::add_fg")],
     technique="MIR value-flow: typestate of the pending run on every way through a column (loop invariant: pending text has the run's own style), value provenance of every formatted attribute, taint of text through the escaper",
     note="The reverse and dim attributes, which the exporter does not show, and colours other than RGB are not part of this.")

prop("P33", "An option list always points at an option that exists and can be chosen",
     "Whatever options, disabled states, selections, keys and clicks an option list is given, its selected index is that of an existing option (0 when there are none), and not of a disabled one while an enabled one exists. Up and Down "
     "go to the nearest enabled option in that direction, or stay. A click chooses, and reports, the option that is drawn under the pointer if it is enabled, and nothing otherwise. After every such change the options are shown anew: one "
     "per item, in order, with exactly the disabled ones disabled and only the selected enabled one highlighted.",
     ["inputs", "histories"], "every list of options and disabled states, and every sequence of changes, keys and clicks, with any border, padding and scroll position",
     "Which options are disabled, how many there are and what was selected before combine freely; a test samples a few lists.",
     [TW + "/option_list.rs", TXP + "/containers/container.rs"],
     [("selection", "OptionList::set_items, set_items_with_state, set_selected, normalize_selected, next_enabled_from"),
      ("keys and clicks", "OptionList::on_event, move_selection, on_mouse; Container::child_at"),
      ("display", "OptionList::refresh_display")],
     technique="MIR value-flow: path-wise postcondition of the selected index (range by linear inequalities, enabledness by guard facts), loop check of the nearest-enabled search, must-follow check of the display refresh",
     note="When every option is disabled, a disabled one stays selected; whether a key is passed on is not part of this.")

prop("P25", "Shared state is never borrowed or locked again while it is in use",
     "No sequence of events makes the framework stop because state behind a RefCell is borrowed while it is borrowed for change (or the other way round), or hang because a lock is taken again by the code that holds it: at every point "
     "where a borrow or lock is held, nothing that runs before it is given back takes the same one, directly or through any function called with its owner, and none is held while an async function waits.",
     ["inputs", "histories", "schedules"], "every path through every function that borrows or locks, and everything called from it on the same object",
     "A double borrow panics only on the path and state where the two meet (a scrollbar shown, a link hovered, a cache hit), and nothing in the types rules it out.",
     [TXP + "/containers/container.rs", TXP + "/containers/scrollable.rs", TW + "/screen.rs", TW + "/static_widget.rs", TXP + "/border_box.rs"],
     [("scroll state and layout cache", "Container, ScrollableContainer, Screen"),
      ("links and actions", "Static, Button, Header, CommandPalette"),
      ("box cache", "border_box::get_box, clear_cache")],
     technique="MIR dataflow: live ranges of borrow and lock guards (from the taking call to the drop) against transitive borrow summaries of callees, by access path",
     note="Distinct widgets own distinct state (the tree owns its children), so only the same access path counts as the same cell; a tokio mutex may be held across an await.")
