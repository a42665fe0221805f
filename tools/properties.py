"""Writes properties.jsonl (kept as Python so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})
ED = "crates/document_editing/src/use_cases/"
FM = "crates/document_formatting/src/use_cases/"
PA = "crates/public_api/src/"
CO = "crates/common/src/"
SCOPE = "documents of paragraphs (text, character and paragraph formatting, lists)"

prop("C01", "Editing text is an exact splice of the document text",
 "In a document of paragraphs, inserting text, typing over a selection, formatted insertion, splitting a paragraph, deleting a selection, deleting one user-perceived character forward or backward, pasting plain text and replacing matches each change the plain text exactly as replacing the selected character range by the new text would, with paragraph breaks counted as one character, and leave the caret just after the inserted text. No such call panics, whatever Unicode the document holds, and one that reports an error leaves the document as it was. The paragraphs read one by one always spell the same text as the whole document read at once.",
 ["inputs", "histories"], "every document of paragraphs, every caret and selection on character boundaries, every sequence of these operations with any text",
 "the tests edit a few ASCII paragraphs at hand-picked offsets; the guarantee is over all texts, offsets in bytes, characters and clusters, and all sequences",
 [ED + "insert_text_uc.rs", ED + "delete_text_uc.rs", ED + "insert_block_uc.rs", ED + "insert_fragment_uc.rs", CO + "database/rope_helpers.rs", CO + "format_runs.rs", CO + "database/block_offset_index.rs"],
 [("insert_into_rope / delete_from_rope with byte-char conversion", CO + "database/rope_helpers.rs"), ("block offset index shifted after each edit", CO + "database/block_offset_index.rs"), ("logical_offset_to_byte", CO + "format_runs.rs")],
 ["TextDocument::to_plain_text", "TextBlock::text", "TextCursor::position"])
prop("C02", "Formatting follows the characters it was applied to",
 "In a document of paragraphs, every edit keeps the character formatting of all characters it neither inserts nor formats: typed text takes the formatting of the character on its left in the paragraph, formatted insertion carries the attributes it was given, and setting or merging a character format changes exactly the given attributes of exactly the selected characters. Splitting copies the paragraph's format and list membership to both halves, joining keeps those of the first paragraph, and setting a paragraph format or making a list affects exactly the paragraphs the selection touches. Adjacent characters with equal formatting read back as one run, and runs never overlap, leave gaps or exceed their paragraph.",
 ["inputs", "histories"], "every document, every selection, every attribute set, every sequence of editing and formatting operations",
 "the tests check single format calls on one or two runs; run boundaries meeting edit boundaries in every way, over multi-byte text and long histories, are not sampled",
 [CO + "format_runs.rs", FM + "set_text_format_uc.rs", FM + "merge_text_format_uc.rs", FM + "set_block_format_uc.rs", ED + "insert_formatted_text_uc.rs", ED + "delete_text_uc.rs"],
 [("splice_range, shift_runs_for_insert, shift_runs_for_delete, split_runs_at, coalesce_in_place keep runs sorted, disjoint and coalesced", CO + "format_runs.rs"), ("build_replacement_runs overlays the given attributes", FM + "set_text_format_uc.rs")],
 ["BlockSnapshot::fragments", "TextBlock::char_format_at", "TextBlock::block_format"],
 [("format runs", "sorted disjoint byte spans with a format, per paragraph", CO + "format_runs.rs")])
prop("C03", "Undo restores the earlier document exactly; redo restores the later one",
 "Undoing an operation brings back exactly the document before it: text, character formats, paragraph formats, lists and their order; redoing brings back exactly the document after it, and the identifiers of the paragraphs and lists that came back are the ones they had. This holds for any sequence of edits, undos and redos in any order, including typing steps that were merged into one. Undoing everything reaches the document as it was loaded.",
 ["histories"], "every history of operations of every kind interleaved with undo and redo, typing sessions with merging included",
 "each operation has one or two undo tests from a fresh document; merged commands, ids reused by redo, and long mixed histories are not covered",
 [CO + "undo_redo.rs", CO + "database/rope_store.rs", ED + "insert_text_uc.rs", ED + "delete_text_uc.rs", FM + "set_text_format_uc.rs", CO + "format_runs.rs"],
 [("command stacks", CO + "undo_redo.rs"), ("captured runs spliced back", CO + "format_runs.rs"), ("store snapshot and restore", CO + "database/rope_store.rs")],
 ["TextDocument::undo", "TextDocument::redo"])
prop("C04", "Undo history is a linear stack and an edit block is one step",
 "Each change that is not merged with the previous typing step adds one undo step, undo and redo move exactly one step along that line, and a new change after an undo discards everything that could have been redone. All changes between the beginning and the end of an edit block, nested blocks included, form one step; a block without changes adds none. Whether undo or redo is possible is reported exactly, undoing or redoing past the ends changes nothing, and clearing the history leaves the document alone.",
 ["histories"], "every sequence of changes, edit blocks at any nesting, undo, redo and history clearing",
 "the stack tests use fixed short scripts with stub commands; the guarantee quantifies over all scripts on the real commands",
 [CO + "undo_redo.rs", PA + "document.rs", PA + "cursor.rs"],
 [("UndoRedoManager::add_command_to_stack / undo / redo / begin_composite / end_composite", CO + "undo_redo.rs")],
 ["TextDocument::can_undo", "TextDocument::can_redo"])
prop("C05", "All position lookups agree with the paragraphs laid end to end",
 "After any history, every paragraph's reported start, length, number, text, neighbours and format, the paragraph found for a position, number or identifier, the text and paragraphs of a range, the run found at a position, and the cursor's paragraph number and column all agree with the paragraphs laid end to end with one separator between them. Character, word, paragraph and list counts agree with the same text. Positions are counted in characters and are contiguous from 0 to the length of the document.",
 ["inputs", "histories"], "every document reachable by edits, undo and redo, every position and range",
 "lookup tests run on freshly loaded ASCII documents; stale cached positions only show after particular edits and undos",
 [CO + "database/block_offset_index.rs", CO + "database/rope_helpers.rs", PA + "document.rs", PA + "text_block.rs", "crates/document_inspection/src/use_cases/get_block_at_position_uc.rs", "crates/document_inspection/src/use_cases/get_document_stats_uc.rs"],
 [("entry_at_byte, shift_after, insert_at, remove_at over a sorted index", CO + "database/block_offset_index.rs")],
 ["TextDocument::block_at", "TextDocument::text_at", "TextBlock::position", "TextDocument::stats"],
 [("offset index", "paragraph starts in bytes, sorted", CO + "database/block_offset_index.rs")])
prop("C06", "Live cursors stay on the same characters through every edit",
 "When any cursor edits a document of paragraphs, or matches are replaced, or an edit is undone or redone, every other cursor's position and anchor before the changed range stay, those behind it move by the length difference, and those inside it move to the end of the replacement. Positions and anchors are always within the document. Changes of formatting move no cursor.",
 ["histories", "schedules"], "every number of live cursors at every position, every edit through any of them, with undo and redo",
 "tests have two cursors and one edit; all combinations of cursor position against edit range, and undo, are not sampled",
 [PA + "inner.rs", PA + "cursor.rs", PA + "document.rs"],
 [("adjust_offset / adjust_cursors", PA + "inner.rs"), ("compute_text_edit gives the edited range of undo and redo", PA + "document.rs")],
 ["TextCursor::position", "TextCursor::anchor"])
prop("C07", "Cursor movement and selection follow Unicode boundaries and stay in bounds",
 "Every movement command takes the cursor to exactly the place its name promises: the next or previous user-perceived character, the next or previous word start, the word end, the start or end of the paragraph or document, the neighbouring paragraph; a character movement repeated n times equals n single steps, and every movement reports whether the cursor moved. Keeping the anchor selects exactly the text between anchor and position; selecting the word, line, paragraph or document under the cursor selects exactly that. A cursor never comes to rest outside the document or inside a user-perceived character, whatever position it is asked to move to.",
 ["inputs"], "every document text, every start position, every movement, selection kind and repeat count",
 "the movement tests use short ASCII lines; clusters, empty paragraphs, punctuation and document ends combine in too many ways",
 [PA + "cursor.rs"],
 [("move_position / resolve_move", PA + "cursor.rs"), ("snap to grapheme boundary", PA + "cursor.rs")],
 ["TextCursor::move_position", "TextCursor::select", "TextCursor::selected_text"])
prop("C08", "Reads, refused commands and no-ops leave no trace",
 "A call that reports an error, and every call that only reads (lookups, searches, exports, snapshots, cursor movement and selection), leaves text, formatting, counts, exports, the undo and redo possibilities and the modified flag exactly as they were and emits no event. Commands with nothing to do, such as deleting at the edge of the document or replacing text that is absent, leave the document unchanged. Undo directly followed by redo leaves the document unchanged.",
 ["inputs", "fault_sequences"], "every document and history, then every refused, read-only or empty command with any argument",
 "error tests assert the error value; none compares the whole observable state before and after, in particular when the command fails half-way",
 [ED + "insert_fragment_uc.rs", PA + "cursor.rs", PA + "document.rs", CO + "undo_redo.rs"],
 [("validation before the first write; savepoint restored on error", ED)],
 ["TextDocument::is_modified", "TextDocument::poll_events"])
prop("C09", "Search finds exactly the matches and replace rewrites exactly them",
 "Finding all matches reports exactly the leftmost non-overlapping occurrences of the query in the plain text, in order, as positions and lengths in characters, honouring case sensitivity, whole words and regular expressions; finding forward from a position gives the first of them that starts at or after it, and backward the last that starts before it. Replacing one or all substitutes the first or every match that lies within a paragraph, reports how many it replaced, and changes nothing else.",
 ["inputs"], "every text, query, replacement, start position and option set",
 "the tests search a few ASCII sentences; positions in mixed-width text, case folding that changes length, overlaps and word edges are not sampled",
 ["crates/document_search/src/use_cases/search_helpers.rs", "crates/document_search/src/use_cases/find_text_uc.rs", "crates/document_search/src/use_cases/replace_text_uc.rs"],
 [("find_all_matches and byte-to-char map", "crates/document_search/src/use_cases/search_helpers.rs"), ("match_in_single_block and position shift", "crates/document_search/src/use_cases/replace_text_uc.rs")],
 ["TextDocument::find_all", "TextDocument::find", "TextDocument::replace_text"])
prop("C10", "Change events let a listener mirror the document",
 "Each change to a document of paragraphs emits events from which a listener that knew the text before can rebuild the text after: the reported position, removed and added lengths describe the edit exactly, paragraph-count changes carry the true new count, inserted and removed flow elements describe the new element list, and a change of formatting is reported. Every event is delivered exactly once and in order to polling and to each registered callback, independently of each other, and none after a callback is dropped.",
 ["histories", "schedules"], "every history of edits, format changes, undo and redo, with any interleaving of polling and callbacks",
 "event tests look for one event kind after one call; no test replays a stream, and delivery interleavings are not enumerated",
 [PA + "inner.rs", PA + "document.rs", PA + "cursor.rs", PA + "events.rs"],
 [("drain_poll_events, take_queued_events, trim_delivered_events", PA + "inner.rs"), ("check_flow_changed prefix/suffix diff", PA + "inner.rs"), ("compute_text_edit", PA + "document.rs")],
 ["TextDocument::poll_events", "TextDocument::on_change"],
 [("poll and callback cursors", "first undelivered event of each path", PA + "inner.rs")])
prop("C11", "Loading plain text is lossless and clean",
 "Loading any text and reading it back gives the same text, with one paragraph per line and line endings normalised to a single newline. Loading resets the undo history and all formatting, and reports a document reset. Live cursors end inside the new document.",
 ["inputs"], "every Unicode text",
 "the tests load a handful of strings",
 ["crates/document_io/src/use_cases/import_plain_text_uc.rs", "crates/document_io/src/use_cases/export_plain_text_uc.rs", PA + "document.rs"],
 [("line splitting and rope construction", "crates/document_io/src/use_cases/import_plain_text_uc.rs")],
 ["TextDocument::set_plain_text", "TextDocument::to_plain_text"])
prop("C12", "Copying and pasting a selection reproduces its text and formatting",
 "The fragment of a selection holds exactly the selected text and its character formatting (a paragraph break that the selection only just reaches is not copied). Pasting an unformatted-paragraph fragment at a caret or over a selection splices exactly that text with that formatting into the document, keeps everything around it, and leaves the caret behind it; pasting does not depend on what happened to the source since. An empty fragment is refused without effect.",
 ["inputs", "histories"], "every document, every source selection, every target caret or selection",
 "clipboard tests copy one word or one paragraph; part-paragraph selections across several paragraphs pasted inside one another are not sampled",
 [ED + "insert_fragment_uc.rs", "crates/document_inspection/src/use_cases/extract_fragment_uc.rs", PA + "fragment.rs"],
 [("split_runs_at / byte slicing of the first and last paragraph", ED + "insert_fragment_uc.rs")],
 ["TextCursor::selection", "TextCursor::insert_fragment"])
prop("C13", "Highlighting overlays what is shown and never touches the document",
 "With a highlighter attached, the fragments of every paragraph still spell its text and each character shows its own format overlaid by exactly the highlight attributes the highlighter gave it, later highlights winning attribute by attribute. Highlights never reach the stored formatting, exports, undo history or plain text, and removing the highlighter restores the plain view. After an edit every paragraph shows what its highlighter says about its current text and the state passed on from the paragraph before.",
 ["inputs", "histories"], "every document, highlighter and history",
 "the highlight tests use one keyword highlighter on fixed text; overlapping spans at all offsets and state propagation after edits are not sampled",
 [PA + "highlight.rs", PA + "text_block.rs"],
 [("merge_highlight_spans / sweep over boundaries", PA + "highlight.rs"), ("rehighlight cascade while the end state changes", PA + "highlight.rs")],
 ["BlockSnapshot::fragments", "TextBlock::fragments"])
prop("C14", "Fragments tile each paragraph",
 "The fragments of a paragraph, read from its snapshot or handle, follow one another without gap or overlap from its start to its end, spell its text, and each carries the one format all of its characters have, its offset and its length in characters. Whole-document, part-document and single-paragraph snapshots show the same fragments.",
 ["inputs", "histories"], "every document reachable by any history",
 "fragment tests check two or three runs in fresh documents",
 [CO + "format_runs.rs", CO + "format_runs_query.rs", PA + "text_block.rs", PA + "flow.rs"],
 [("inline_segments_view walks runs and gaps", CO + "format_runs.rs")],
 ["TextBlock::fragments", "TextDocument::snapshot_flow"])
prop("C15", "List items are numbered in order with the right marker",
 "The paragraphs of a list appear in document order, each knows its index, and its marker shows the index plus one in the list's style with its prefix and suffix: decimal, letters a to z (the decimal number beyond z), correct Roman numerals, or the bullet. Numbering stays right after any insertion, removal, reordering by edits, undo or redo.",
 ["inputs", "histories"], "every list length and style, every history of list edits",
 "marker tests check the first few indices; the end of the alphabet and the Roman rules are over all numbers",
 [PA + "text_list.rs", PA + "text_block.rs", FM],
 [("format_list_marker, to_roman_upper, to_roman_lower", PA + "text_block.rs")],
 ["TextList::item_marker", "TextList::items", "BlockSnapshot::list_info"])
prop("C16", "Table cells form a consistent grid",
 "In a document with one table, inserting and removing rows and columns, merging and splitting cells keep every grid position covered by exactly one cell, within the table's size, and cell lookups by position agree with the cell list. The text of the cells the operation does not remove is kept. A cell selection expands to the smallest rectangle that cuts no merged cell.",
 ["inputs", "histories"], "every table size up to the limits, every sequence of these operations",
 "table tests run one operation on one small table",
 [ED + "insert_table_row_uc.rs", ED + "insert_table_column_uc.rs", ED + "remove_table_row_uc.rs", ED + "remove_table_column_uc.rs", ED + "merge_table_cells_uc.rs", ED + "split_table_cell_uc.rs", PA + "flow.rs", PA + "text_table.rs"],
 [("CellRange::expand_for_spans fixpoint", PA + "flow.rs")],
 ["TextTable::cell", "TextTable::rows", "TextCursor::selected_cells"])
prop("C17", "Title, resources and metadata are kept as given and are undoable state",
 "Setting the document title, the text direction, wrapping or adding a named resource makes exactly that readable back, with resource bytes unchanged for any content and the last value winning for a name. Text edits do not change them.",
 ["inputs", "histories"], "every name, every byte content, every order of calls",
 "resource tests store a few bytes",
 ["crates/document_io/src", PA + "document.rs"],
 [("base64 of resource data", PA + "document.rs")],
 ["TextDocument::title", "TextDocument::resource"])
prop("C18", "Exports escape text so that markup cannot leak",
 "In HTML, LaTeX and Markdown export every character of the document's text (NUL and line breaks inside a paragraph aside, and code blocks aside, which Markdown and LaTeX write verbatim) appears as text: characters with a meaning in the target language are escaped, so that decoding the export's text gives the document's text back, and inline code in Markdown is fenced by more backticks than it contains. Exporting any document of paragraphs succeeds and importing the exported HTML gives a document with the same text and the same bold, italic, underline and strike-out formatting.",
 ["inputs"], "every text and every combination of character formats",
 "export tests compare a few literals; special characters in every context and run pattern are not sampled",
 ["crates/document_io/src/use_cases/export_html_uc.rs", "crates/document_io/src/use_cases/export_latex_uc.rs", "crates/document_io/src/use_cases/export_markdown_uc.rs", PA + "fragment.rs"],
 [("escape_html, escape_latex, escape_markdown", "crates/document_io/src/use_cases")],
 ["TextDocument::to_html", "TextDocument::to_latex", "TextDocument::to_markdown"])
prop("C19", "Long operations run in order, report progress and can be cancelled",
 "A background import or export reports non-decreasing progress, ends with exactly one completed, failed or cancelled report, and a cancelled one leaves the document as it was.",
 ["schedules"], "every interleaving of the worker with polling and cancellation",
 "tests wait for one run to finish", [CO + "long_operation.rs"], [("worker thread and shared progress", CO + "long_operation.rs")])
prop("C20", "Sharing a document between threads is safe",
 "Calls on one document and its cursors from several threads never deadlock and have the effect of some order of those calls.",
 ["schedules"], "every schedule of any number of threads",
 "tests start two threads and see one schedule", [PA + "inner.rs", PA + "cursor.rs"], [("document lock before cursor lock", PA + "inner.rs")])
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(here, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
    assert len(p["title"]) <= 80
