UNB = "machine integers are Rust's own (overflow is an obligation); memory exhaustion is ignored"
ROPE = ["ropey::Rope is a sequence of characters with UTF-8 byte offsets, as documented", "locks are read as exclusive access: no other thread changes the store between two lock acquisitions of one call", "documents under 2 GiB"]
claim("C01", ["format_runs", "block_offset_index", "rope", "edit_core", "inserting", "breaking", "bookkeeping", "replacing"],
  "the paragraph-level steps of the editing commands (delete a range of characters, replace one, delete inside a paragraph, join two paragraphs around a deletion, insert formatted text, break a paragraph in two) leave exactly the spliced text and return exactly the deleted text, and touch no other paragraph; every writer of the text store (insert and remove characters in a paragraph, split, merge, insert, append and remove a paragraph or a table anchor, reset) leaves exactly the spliced text, with the paragraphs laid end to end and the index an exact tiling of it, for every document, paragraph and offset; the run tables stay well formed when text is spliced in or cut out.",
  "the editing commands as a whole against a text-splice specification: every document of up to 4 symbols x every selection x every command, and seeded longer histories.", [UNB] + ROPE + ["callers of rope_insert_block_at give the end byte of a paragraph"])
claim("C02", ["format_runs", "restyle_set", "restyle_merge", "block_format", "edit_core", "inserting", "breaking", "asked_format"],
  "deleting, replacing and joining leave every kept character its format and give replacement text the format of the character left of it (none at a paragraph start); formatted insertion gives exactly the inserted characters exactly the six attributes asked for; breaking a paragraph keeps every character its format and gives the new paragraph the paragraph formatting and the list of the old one; always with runs sorted, coalesced and on character boundaries; setting or merging a character format puts exactly the attributes the request names over the format of exactly the characters between its two positions, in every paragraph of every frame, and undoing the command gives every paragraph its former runs back (and redoing it applies the request again); setting a paragraph format changes exactly the named attributes of exactly the paragraphs the selection touches. splicing, capturing, shifting, cutting and coalescing the run table change the format of exactly the bytes they name, keep runs sorted, disjoint, non-empty, and coalesced runs are the unique canonical form.",
  "the formatting and editing commands as a whole against a per-character format specification: every format pattern over 5 characters x every range, and seeded longer histories.", [UNB])
claim("C03", ["undo_redo", "format_runs", "restyle_set", "restyle_merge", "typing", "inserting"],
  "typing and inserting formatted text without a selection and taking it back leaves every text, every run, the stored positions of the paragraphs and the character count exactly as they were, also when two typings were merged into one command; undoing the commands that set and merge character formats gives exactly the former runs of every paragraph; undo of a command sequence followed by redo gives back the same state for any number of commands provided each command's own undo and redo are inverse (ghost state machine), composite commands undo in reverse order; capturing and splicing back a run table restores it.",
  "that each single command's undo and redo are inverse on real documents: seeded histories with undo and redo in any order.", [UNB, "a command's undo after its execute, and redo after its undo, are inverse on the store (assumed by the proof, bounded-checked)"])
claim("C04", ["undo_redo"],
  "the undo manager is a linear stack: begin, end and cancel of composites, adding, undo, redo, clear and the can-undo and can-redo reports follow the abstract two-stack machine.",
  "the same over the public interface: every sequence of 6 commands, and seeded histories with nested edit blocks.", [UNB])
claim("C05", ["block_offset_index", "rope", "reading", "bookkeeping", "locating"],
  "the block offset index keeps its markers a contiguous tiling of the text, and range and position lookups return exactly the tile asked for; the text, length and start of a paragraph read from the store are those of the paragraphs laid end to end, after any sequence of the store's writers; reading the text at a position returns exactly that many characters of the document's text from there (up to its end) and is refused exactly for positions outside it; the paragraph at a position is the one whose characters, or whose end, it is, by the fast path over the store as by the slow walk over the paragraphs; the editing commands find the paragraph of a position the same way (find_block_at_position, both sequential walks); deleting inside one paragraph or across several and breaking a paragraph remove and add exactly the records, texts, runs and frame entries they should, keep the stored positions end to end and the counts of paragraphs and characters right.",
  "every public position lookup at every position of small documents and of seeded histories.", [UNB] + ROPE)
claim("C06", ["cursors"],
  "the adjustment of positions and anchors after an edit keeps them in the document, on the same characters, in order, for every cursor registered.",
  "the editing commands with live observing cursors: every small document x every edit x every cursor position, and seeded histories.", [UNB])
claim("C08", ["undo_redo"],
  "undo followed by redo restores the manager's state, commands with no effect on the stacks leave them unchanged.",
  "22 kinds of reads, no-ops and refused commands on seeded documents and histories.", [UNB])
claim("C09", ["search", "spots", "edit_core", "replacing"],
  "replacing the matches (last first) leaves, for any number of matches, the text with exactly those spans replaced, every kept character in its format and the replacements in the format left of them, every paragraph behind where the changed texts put it and the character count right; replacing a match inside its paragraph puts the replacement for exactly the characters of the match, in the format left of them; the scan over the text returns exactly the leftmost non-overlapping occurrences (literal and regular expression, whole word at character class boundaries), in character units; find picks the first at or after the start, or the last before it; a match is attributed to a block only when it lies in one block.",
  "find, find next and previous, find all and replace on whole documents against a quadratic reference: every small document x needle x option, and seeded histories.", [UNB, "the match iterator of the regex crate and str::find return what their documentation says", "lower-casing of one character is what std says"])
claim("C10", ["events"],
  "the change announced after undo and redo, put in place of the range it names in the old text, gives the new text, and covers nothing that both have at either end; every queued event reaches the polling queue and every live subscription exactly once and in order, the paragraph count event and the structural event (with the exact replaced range of top-level elements) are queued exactly when the count or the element list changed.",
  "a listener that mirrors the document from the reported changes alone ends with the same text and the same formats: every small document x every edit, and seeded histories with undo and redo.", [UNB])
claim("C13", ["highlight"],
  "overlaying spans on the fragments of a paragraph keeps every character, position and run and shows each character in its stored format under the spans over it, later spans winning attribute by attribute; after an edit, re-highlighting from the paragraph of the edit leaves every paragraph highlighted for its text and for the state of the paragraph before it (cascade included); a full re-highlight does the same.",
  "highlighted documents against a reference on every small document x edit, stored formats and exports unchanged, and seeded histories.", [UNB, "a highlighter is a function of the text and the previous state (documented duty of the implementor)", "which paragraphs an edit leaves stale (bounded-checked)"])
claim("C14", ["format_runs", "segments"],
  "the fragments built for a paragraph without images (build_raw_fragments), and the inline segments made for export and copying (inline_segments_view), spell its text character by character, each character with the format of the run over it and none where no run is, each fragment non-empty with its offset and length in characters, for every text and run table; the run tables themselves stay sorted, disjoint, non-empty and inside the text under every operation on them.",
  "the fragments of every paragraph of small formatted documents and of seeded histories tile its text, in order, with maximal runs.", [UNB, "slicing and UTF-8 encoding of str are as documented", "run boundaries lie on character boundaries inside the text (kept by the operations of format_runs at such offsets; bounded-checked on documents)", "identifiers and word starts of fragments are not specified; paragraphs with images are outside"])
claim("C12", ["copying", "pasting"],
  "copying a selection inside the main text: the fragment's plain text is the document's text between the two ends, exactly (a break that the selection only just reaches is not copied), it has one block for each paragraph the selection meets and no other, each with exactly the selected characters and each character with its format, and the paragraph formatting and list of the paragraphs it takes whole. Turning a fragment's elements into the runs of a paragraph gives every character its format again, as sorted, joined runs inside the text; pasting them behind the text left of the caret, and before the text right of it, gives text and formats of the one followed by those of the other. For every document, selection and fragment without images.",
  "the whole operation on the document: fragments of every selection of every document of at most 4 symbols pasted at every position and over selections of a small document, after the source is gone, with caret and undo, and seeded longer documents.", [UNB, "the paragraphs handed to the copying step are all paragraphs of the text in order with correct positions and texts (C05, C01)", "serde_json writes and reads a fragment unchanged (bounded-checked: paste after the source is gone)", "str::chars, String::push_str, Vec::join are as documented", "tables and images inside a selection are outside"])
claim("C11", ["load"],
  "loading a plain text: whatever the store held before, afterwards its text is the given text with every line ending (CR LF, CR, LF) made one separator, one paragraph per line in order, each recorded with its position, and the counts of paragraphs and characters are right; a text without CR reads back unchanged; set_plain_text and clear then empty the history, move every cursor to the start, drop the cached text and queue exactly one reset event.",
  "loading plain text, Markdown and HTML over documents with history, cursors, tables and highlights, against a reference: every small text with every line ending, and seeded histories.", [UNB] + ROPE + ["str::replace, str::split and chars().count() are as documented", "the block table hands out fresh identifiers"])
claim("C15", ["list_marker", "grouper"],
  "the marker of every item index in every style: prefix, decimal, letter, Roman numeral (equal to the numeral written digit by digit, for all numbers) or bullet, suffix; when loading or pasting, an item joins the list open at its depth exactly when the style is the same and starts a new one otherwise, an item ends every deeper list, and a paragraph that is no item ends them all.",
  "that the items of a list are numbered in document order from the first through every edit: every style and prefix, lists of up to 5000 items, and seeded histories.", [UNB])
claim("C16", ["cell_range", "tiling", "locating"],
  "a cell selection expands to the smallest rectangle that cuts no merged cell, and the expansion terminates; a new table, inserting and removing rows and columns, merging and splitting cells choose exactly the cells to add, change and take away for which the grid stays tiled, every place covered by one cell and none reaching out, whatever was merged before, or refuse; inserting, removing, merging and splitting cells lays the paragraphs of the table one behind the other in row-major order from where the table began, and moves exactly the paragraphs behind it by exactly the difference of the room the cells take, as do inserting and removing a whole table.",
  "the structure operations against a grid specification: every table up to 3x3 x every merge x every operation with undo and redo, and seeded longer histories.", [UNB])
claim("C18", ["export"],
  "escape_html, escape_latex and escape_markdown write every text so that a reader of the target language, which refuses any bare character with a meaning, reads the same text back; a Markdown code span is fenced by more backticks than its longest run and padded where needed; joining alike segments keeps every character and its look and leaves no two alike neighbours; the segment writers of the three exporters put out exactly the escaped text between balanced delimiters.",
  "whole exports decoded again, and HTML exported, imported and compared: every special character in every format, small formatted documents and seeded ones.", [UNB, "std's char and str iteration and push are what their documentation says"])
claim("C07", ["movement"],
  "every movement of a cursor at a place where it may rest: the n-th next or previous boundary between user-perceived characters, the nearest word end behind and word start before (over any distance), the start and end of the paragraph, the neighbouring paragraphs, the ends of the document; the move reports whether the position changed. Asking for any position takes the cursor to the first resting place at or behind it, inside the document, with the anchor following or kept as the mode says. Selecting the word, line, paragraph or document gives exactly its ends, the selected text is the document's text between anchor and position, and the queries (start, end of paragraph and document, paragraph number, column) are right. Going right and then left returns. For every document without tables whose total length fits 31 bits.",
  "every movement, selection and requested position at every place of every document of at most 5 symbols (letters, blanks, underscores, combining marks, breaks), and seeded longer ones with words far apart.", [UNB, "grapheme clusters and words are what the unicode-segmentation crate returns: clusters are not empty, cover the text and are unaffected by cutting at their boundaries; a line feed stands alone; words are disjoint, in order, and are the segments with a letter or digit", "the paragraph and the text at a position are what C05 says (proved there over the store)", "the document fits 31 bits and has no table (the selection over a table is bounded-checked in C16)"])
claim("C17", ["meta"],
  "reading the title, the text direction and the wrap mode gives what the document's record says; setting one of them changes exactly that one, keeps everything else the record tells and the record's lists of frames, resources, lists and tables, or fails and changes nothing. The command that does it writes exactly the given records and undoing and redoing it gives back exactly the table of records before and after, any number of times. Adding a resource stores its name, kind and encoded bytes under a fresh number as the last one of that name; looking a name up gives the bytes of the last one added under it, or nothing exactly when there is none, whatever is remembered from earlier lookups, and undo and redo forget what is remembered.",
  "seeded histories of metadata changes, resources with arbitrary bytes, edits, undo and redo.", [UNB, "base64 decoding undoes encoding (base64 crate)", "HashMap and the entity tables keep what was put under a number, numbers are never handed out twice, a transaction that succeeds is kept; the generated tables besides DocumentTable are assumed to work like it"])
skip("C19", "threads and progress callbacks of the long-operation manager: schedules of std threads, mpsc channels and sleeps are outside what Verus can express about the unmodified code")
skip("C20", "deadlock freedom and linearizability of parking_lot locks shared by OS threads cannot be stated as contracts on the unmodified code; Verus has no model of these locks")
