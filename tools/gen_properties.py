#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

PP, CN, NO, VN, PD = ("src/pretty_print.rs", "src/consolidated_notation.rs", "src/notation.rs",
                      "src/valid_notation.rs", "src/pretty_doc.rs")

prop("C01", "A printed document is exactly the layout its notation denotes",
  "For every valid notation and width, the printed text is the one the notation's documentation defines: concatenation juxtaposes, a newline is followed by all enclosing indentation strings, Flat takes every first option, and each choice takes its first option iff that option's first line, together with what already stands on the line and what is certain to follow on it, stays within the width (counted as the display widths of the pieces of text) and puts no text after an end-of-line. Printing fails with the text-after-end-of-line error exactly when that layout itself puts text after an end-of-line, and never panics.",
  ["programs", "inputs"], "all notations built from text, newline, end-of-line, indent, flat, concat and choice; all line widths; whole-document printing",
  "The tests fix about 40 hand-written documents and a few hundred randomly generated ones compared only with the in-tree oracle; the choice rule interacts with nesting, indentation, zero-width text and trailing content in combinatorially many ways.",
  [PP, CN, "src/geometry.rs"],
  [("choose / fits", PP), ("expand_focusing_first_block", PP), ("Block::new indentation", PP), ("DelayedConsolidatedNotation::eval", CN)],
  [("Block.prefix_len", "columns already used on the line", PP), ("Block.at_eol", "an end-of-line precedes the pending notations", PP)],
  ["pretty_print_to_string", "pretty_print"])

prop("C02", "Notations resolve against the document's structure as documented",
  "For every document tree, each notation node displays what the documentation says for that document node: Child(i) (negative counts from the end), Count by number of children, Fold as a left fold with Left/Right bound to the accumulated part and the next child, Check by the condition at the named position, Text as the node's own text; and Flat, indentation and style of the surrounding notation carry over into children.",
  ["programs", "inputs"], "all notations over Child/Count/Fold/Left/Right/Check/Text combined with the layout operators; all small documents (0..4 children per node, several levels), condition valuations and widths",
  "Tests cover a handful of notation/document pairs (JSON, let lists, iterator chains); no test quantifies over where Left occurs in a join, which node a condition is read from, index sign, or child count.",
  [CN, NO], [("eval: Child/Count/Fold/Left/Right/Check/Text", CN), ("normalize_child_index", NO), ("JoinPos", CN)],
  [("JoinPos", "parent, child and index of the fold in progress", CN)], ["pretty_print_to_string", "pretty_print"])

prop("C03", "The layout does not depend on where the printer is focused",
  "For every document, width, path and focus target for which printing succeeds, the lines above the focus, the focused line (left part followed by right part) and the lines below are together exactly the lines of the whole document, with the same text and styles. Printing from the middle can never show a line that printing everything would not.",
  ["inputs", "programs"], "all documents, widths, paths to displayed nodes and all focus targets (Start, End, Mark, Text(i))",
  "Tests compare a fixed set of seeks on fixed documents at a few widths; the partial printers resolve choices in a different order from every focus, so the agreement is needed for every path, target and width.",
  [PP], [("seek_child / seek_start / seek_end / seek_mark / seek_text", PP), ("expand_focusing_first_block / expand_focusing_last_block", PP), ("print_prev_line / print_next_line", PP)],
  [("prev_blocks/next_blocks", "unresolved lines before and after the focus", PP)], ["pretty_print"])

prop("C04", "The focus point is exactly where the target says",
  "The boundary between the left and right part of the focused line is the requested position: just before the node (Start), just after it (End), at the first FocusMark of the node's own notation not counting its children's (Mark), or before the i'th character of the node's own text, clamped to the text's end (Text(i)). If the node has no such mark or text of its own, the result is the missing-mark or missing-text error rather than some other node's position.",
  ["inputs", "programs"], "all documents, widths, displayed nodes, and targets including out-of-range character indices and nodes whose descendants or siblings have marks/text when they themselves do not",
  "The tests check a few focus positions by hand; marks and text inside choices, folds, multi-line nodes or neighbouring nodes are not covered.",
  [PP, CN], [("seek_*", PP), ("Textual::split_at", CN)], [("left_segments/right_segments", "split of the focused line", PP)], ["pretty_print"])

prop("C05", "The line iterators are lazy, independent and stop for good",
  "Pulling any number of lines from the upward and downward iterators in any interleaving yields prefixes of the same two line sequences; what was pulled from one never affects the other or another printing of the same document, and every iterator comes to an end (also when the layout fails) and then stays ended. Re-printing focused at any displayed line continues seamlessly with the lines already shown.",
  ["schedules", "histories"], "all interleavings of pulls from the two iterators (and of two concurrent printings of one document), including stopping early and pulling after the end",
  "Tests always drain one iterator and then the other, once each.",
  [PP], [("UpwardPrinter / DownwardPrinter next", PP), ("print_prev_line / print_next_line", PP)], [("prev_blocks/next_blocks", "remaining work of each iterator", PP)], ["pretty_print"])

prop("C06", "Every displayed character carries the combined style of its surroundings",
  "The style of each piece of text is the combination, outermost first, of the root style, the node styles of the enclosing document nodes and the labelled styles of the enclosing Style notations, each label looked up in the document node whose notation mentions it; an indentation string has the style in force at its Indent notation combined with its own label. Segment widths are the display widths of their text, and the width and text a line reports (for the focused line also those of its two parts) are those of its segments.",
  ["programs", "inputs"], "all nestings of Style, Indent, Child, Fold and Flat notations over documents whose nodes all have distinct node styles and label tables; all widths, focuses, with and without a root style; non-commutative, non-idempotent style combination",
  "Tests use a handful of documents and a combine function (color override/bold-or) under which many wrong orders or duplications are invisible.",
  [CN, PP, PD], [("with_optional_style", CN), ("eval: Style, Indent, Child, Right, Literal, Text", CN), ("Block::new", PP)], [("DelayedConsolidatedNotation.style", "style accumulated so far", CN)], ["pretty_print", "Segment"])

prop("C07", "Printing part of a document only does work for that part",
  "Printing the focused line and k lines around it opens only document nodes that overlap those lines (or lead to them); in particular, the number of calls made on the document does not grow with the size of subtrees lying entirely on lines outside the requested window, or with text further than one line width beyond a choice, and what a choice or check does not select is not opened.",
  ["programs", "inputs", "histories"], "all small choice-free documents, focuses and window sizes (exact bound on opened nodes); document families with choices whose far-away subtrees are scaled up (call counts must not change)",
  "Only a benchmark-like manual profile exists; no test observes which nodes are visited, so a printer that walks the whole document passes all of them.",
  [PP, CN, "src/lib.rs"], [("DelayedConsolidatedNotation (lazy evaluation)", CN), ("expand_focusing_*", PP), ("fits stops at newline or overflow", PP)],
  [("Child chunks", "unentered children", PP)], ["calls on the PrettyDoc implementation"])

prop("C08", "A failing document call surfaces as that error and nothing else",
  "If any single call on the document returns an error, the printer reports exactly that error, either from the printing call itself or from the iterator that needed it; every line already delivered is still the correct line, and nothing panics or is silently skipped.",
  ["fault_sequences", "inputs"], "every document call of every printing run of the explored documents, widths and focuses fails once (and, separately, permanently from that call on)",
  "No test uses a document that can fail: the only PrettyDoc implementation in the repository is infallible.",
  [PP, CN, PD], [("? on every PrettyDoc call", CN), ("Chunk::new", PP)], [], ["pretty_print", "pretty_print_to_string"])

prop("C09", "Mismatched notations and bad paths give the documented error, never a panic",
  "When a displayed notation does not match its document node (Text on a node without text, Child/Check index out of range, Child/Check/Count/Fold on a text node) printing ends with the corresponding error and its index and length; a path leading through an undisplayed child gives the invalid-path error with that index. No validated notation, document, path or target makes the printer panic.",
  ["programs", "inputs"], "all valid notations put on non-matching documents, all paths including out-of-range and text-node components, all targets and widths",
  "Tests exercise three mismatches in fixed documents; combinations with choices, folds, paths and widths are not covered.",
  [CN, PP, NO], [("eval error returns", CN), ("seek_child InvalidPath", PP), ("normalize_child_index", NO)], [], ["pretty_print", "pretty_print_to_string"])

prop("C10", "Validation rejects exactly the flawed notations",
  "Validation fails if and only if the notation contains one of the documented flaws, and the reported flaw is one that is present; an accepted notation printed on a matching document never panics and never yields an error that validation promises to exclude. Validation does not alter the notation.",
  ["programs"], "all notations up to a size bound over every notation constructor and check position, in every nesting",
  "Tests validate only notations that are valid, apart from a few; each flaw is context dependent (inside/outside Fold and Count, before/after an end-of-line on some resolution of choices).",
  [VN], [("validate_rec", VN), ("Context / History", VN)], [("History.eol/mark", "what may/must precede", VN)], ["Notation::validate"])

prop("C11", "The printer honours the calling contract of the document trait",
  "For every document and printing run the printer calls unwrap_text only on text nodes, unwrap_child/unwrap_last_child only with existing children, unwrap_prev_sibling only on the child just after the requested one with its true parent, and asks only for conditions and style labels that the node's notation uses. Overriding the optional sibling methods never changes what is printed.",
  ["inputs", "programs", "histories"], "all explored documents, widths, focuses and pull histories, for both the default and overridden sibling methods",
  "The contract is stated in the trait's documentation but no test document checks it: Tree accepts calls (such as a wrong sibling index) that other implementations may not.",
  [PD, CN, PP], [("eval: Fold/Left/Right use unwrap_last_child/unwrap_prev_sibling", CN), ("default methods", PD)], [], ["calls on the PrettyDoc implementation"])

PANE, DIV, PT, PO = "src/pane/display_pane.rs", "src/pane/divvy.rs", "src/pane/plain_text.rs", "src/pane/printing_options.rs"
prop("C12", "A pane notation partitions its window",
  "For every window size and pane notation, subpanes tile their pane left to right (or top to bottom) without overlap and never leave it: fixed panes get their size first come first served, dynamic panes then get what their document needs or all that is left, and proportional panes share the rest within one cell of their exact share, leftovers to the largest remainders and ties to the left, summing to exactly the space left. Every cell of every document or fill pane is written exactly once, and no other cell is written.",
  ["inputs", "configurations"], "all window sizes up to a bound and all pane notations up to a depth and width, with sizes Fixed/Dynamic/Proportional including zero sizes and weights, too-large requests, full-width fill characters",
  "Tests show fixed layouts for about 20 pane notations; PlainText cannot even observe a cell written twice or out of bounds on the left.",
  [PANE, DIV, "src/geometry.rs"], [("Divvier", DIV), ("display_pane_rec", PANE), ("display_line / display_blank_line", PANE)],
  [("Divvier.cookies", "unallocated space", DIV)], ["PrettyWindow::display_char"])

prop("C13", "A document pane shows the right part of its document, and its focus",
  "A document pane of w by h cells shows the document printed at the width its strategy selects, with the focused line on the row given by the focus height, cropped to the pane, full-width characters never cut in half and the rest blank; if requested, the window's focus is set once to the focus point's cell. A dynamic pane shows its document at its own size with the focused line inside the pane.",
  ["inputs", "configurations"], "all pane sizes up to a bound, documents, focus paths/targets, focus heights and width strategies, nested in fixed, proportional and dynamic panes in both directions",
  "Tests check a few full screens; focus height, cropping, dynamic sizes and focus cell are not tested in combination.",
  [PANE, PO], [("PrintedDoc::new / display", PANE), ("choose_focus_line_row / choose_width", PO)], [("focus_line_row/focus_line_index", "where the printed lines go", PANE)], ["PrettyWindow::display_char", "PrettyWindow::set_focus"])

prop("C14", "Pane styles apply to everything in the pane",
  "Every character written by a pane carries the combination, outermost first, of the initial style, the enclosing pane Style notations and, for document text, the document's own styles; blanks and fill characters carry the combined pane style. This includes Style notations around dynamic panes.",
  ["configurations", "inputs"], "all pane notations up to a depth with Style nodes at every level, over fixed, proportional and dynamic panes, with a non-commutative style combination",
  "PlainText, the only window in the tests, ignores styles entirely.",
  [PANE], [("display_pane_rec Style", PANE), ("extract_doc", PANE), ("blank_style", PANE)], [], ["PrettyWindow::display_char"])

prop("C15", "Failing windows, documents and pane misuse surface as the matching error",
  "If any window call fails, displaying stops with exactly that window error; if a document shown in a pane fails, with that printing error; a dynamic pane around anything but a document gives the invalid-use error. In all these cases nothing panics, and cells written before the failure are correct.",
  ["fault_sequences", "configurations"], "every window call and every document call of the explored displays fails once; every placement of a non-document under Dynamic",
  "The only window in the tests is infallible.",
  [PANE], [("map_err(PaneError::PrettyWindowError)", PANE), ("extract_doc", PANE), ("PaneError", PANE)], [], ["display_pane"])

prop("C16", "Extreme widths and sizes behave like any other",
  "Widths, indentations, texts and windows at or beyond the numeric limits follow the same rules as small ones: text wider than the width type can hold simply does not fit, sums of widths never wrap around (reported widths are capped at the type's maximum), and windows as large as the width type allows are filled correctly; nothing panics, loops forever or changes layout because of size.",
  ["inputs", "configurations"], "texts, literals, indents and their sums around 2^16 columns, widths at 0 and 65535, windows of width 65535, extreme focus heights and pane sizes",
  "All test inputs are below 200 columns.",
  [PP, CN, "src/geometry.rs", PANE], [("str_width", "src/geometry.rs"), ("Block.push_text", PP), ("fits", PP), ("display_line / Fill", PANE)], [("Width", "u16", "src/geometry.rs")], ["pretty_print", "display_pane"])

J, T, S = "src/doc_examples/json.rs", "src/doc_examples/tree.rs", "src/doc_examples/style.rs"
prop("C17", "The JSON example prints every value faithfully at every width",
  "For every JSON value (finite numbers, any strings, comments anywhere in a container) and width, the printed text without comment lines parses back to the same value; a container is on one line iff it fits there and contains no comment, otherwise one entry per line indented by 4; separators stand after every entry but the last real one; comments are flow-wrapped behind // at their white space (of whatever kind), and null/true/false, strings, numbers and comments have their documented styles.",
  ["inputs"], "all JSON values up to a size bound, with comments, at every width up to the flat width",
  "Tests check about ten documents at a few widths, never parse the result back, and never look at styles.",
  [J, T], [("JSON_*_NOTATION", J), ("Tree::new_branch needs_separator", T)], [], ["pretty_print_to_string", "pretty_print"])

prop("C18", "The reference oracle and the printer agree",
  "For every document with non-empty texts that prints without error, and every width below the oracle's limit, the repository's reference pretty printer yields exactly the same text as the real one. (The oracle is what the project's own generative tests trust.)",
  ["programs", "inputs"], "all notations over the layout operators and small documents up to a size bound; all widths up to a bound",
  "The generative test samples a few hundred random notations from one seed per run.",
  ["src/oracle.rs", PP], [("pp / first_line_len", "src/oracle.rs"), ("choose / fits", PP)], [], ["testing::oracular_pretty_print", "pretty_print_to_string"])

prop("C19", "Notations survive serialization",
  "With the serialization feature on, serializing any notation and deserializing it yields a structurally identical notation that prints identically and validates identically.",
  ["programs"], "all notations up to a size bound over every constructor, check position, and strings including unicode and empty ones",
  "No test serializes anything.",
  [NO], [("derive(Serialize, Deserialize)", NO)], [], ["serde impls of Notation and CheckPos"])

prop("C20", "The plain-text window shows what was written to it",
  "After any sequence of character writes within its bounds that does not cut an earlier full-width character in half, the plain-text window renders each row with each written character at its column (full-width characters taking two columns), blanks where nothing was written before the last written column, regardless of the order of the writes; it reports its size and every focus point in order, and rendering fails if and only if its destination does.",
  ["histories", "schedules"], "all orders of all write sets up to a bound over small windows, with narrow and full-width characters and focus calls in between",
  "Tests only ever see writes in the one order that display_pane produces.",
  [PT], [("display_char", PT), ("Display", PT)], [("lines", "cells by row", PT)], ["PlainText"])

prop("C21", "The sample tree and style types keep their documented promises",
  "For every history of building trees, a child needs a separator iff it is not a comment and not the last non-comment child of the branch it was last put in; ids are unique between resets; style overrides win over labels, label names map to exactly their color and boldness, and combining styles takes the inner color and the disjunction of boldness.",
  ["histories", "inputs"], "all construction histories up to a bound (text, branch, comment, style, override, reuse of a subtree under another parent); all known style labels and all pairs of styles",
  "Tests only build trees once, in one order, and no test reads the separator flags or style labels directly.",
  [T, S], [("Tree::new_branch", T), ("lookup_style", T), ("BasicStyle::combine / From<&str>", S)], [("needs_separator", "child is followed by a separator", T)], ["Tree", "BasicStyle", "PrettyDoc for &Tree"])

prop("C22", "The notation algebra holds in every context",
  "In every context and at every width: empty is a unit of concatenation and concatenation is associative; Flat distributes over it, is idempotent and makes a choice its first option; a choice between equal notations is that notation; adding text after a choice is choosing between the two extended options; and the shorthand operators and constructor functions denote exactly the notations their documentation gives.",
  ["programs"], "all pairs of notations related by a law, up to a size bound, placed in all contexts up to a size bound, at all widths up to a bound",
  "Tests never compare two notations with each other.",
  [NO, "src/notation_constructors.rs", PP, CN], [("impl Add/BitOr/BitXor/Shr", NO), ("constructors", "src/notation_constructors.rs"), ("fits / choose", PP)], [], ["pretty_print_to_string", "Notation operators"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
