#![allow(dead_code)]
mod c01; mod export;
mod find; mod hist; mod hl; mod lists; mod load; mod paste; mod mirror; mod model; mod nav; mod ops; mod rng; mod run; mod search; mod tables; mod view; mod words;
use run::*;

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C01", name: "enum_edits", exhaustive: true, quick: c01::DOCS4 * 175, thorough: c01::DOCS4 * 175, case: c01::enum_edits,
            rule: "every document of at most 4 symbols over {a, e-acute, paragraph break} x every caret and anchor x every plain editing operation; non-trivial when the text changes" },
        Suite { prop: "C01", name: "rnd_edits", exhaustive: false, quick: 12000, thorough: 300000, case: c01::rnd_edits,
            rule: "seeded sequences of 3-12 editing operations on documents of up to 4 paragraphs, text compared with the specification after each step; non-trivial when some step changes the document" },
        Suite { prop: "C02", name: "enum_formats", exhaustive: true, quick: 243 * 36 * 6, thorough: 243 * 36 * 6, case: c01::enum_formats,
            rule: "every pattern of {plain, bold, italic} over a 5-character paragraph x every range x 6 operations; non-trivial when the document changes" },
        Suite { prop: "C02", name: "rnd_formats", exhaustive: false, quick: 12000, thorough: 300000, case: c01::rnd_formats,
            rule: "seeded sequences of 3-12 editing and formatting operations, characters with formats, paragraph formats and lists compared with the specification after each step" },
        Suite { prop: "C03", name: "rnd_undo", exhaustive: false, quick: 6000, thorough: 200000, case: hist::rnd_undo,
            rule: "seeded histories of 4-15 operations of every kind with undos and redos in between, then everything undone and redone; each state compared with the recorded one" },
        Suite { prop: "C03", name: "rnd_typing", exhaustive: false, quick: 6000, thorough: 200000, case: hist::rnd_typing,
            rule: "seeded typing sessions (typing, replacing selections, one-character deletions, paragraph breaks) whose steps may merge" },
        Suite { prop: "C04", name: "enum_stack", exhaustive: true, quick: 6u64.pow(6), thorough: 6u64.pow(6), case: hist::enum_stack,
            rule: "every sequence of 6 commands over {edit, undo, redo, edit block, nested edit blocks, clear history}" },
        Suite { prop: "C04", name: "rnd_groups", exhaustive: false, quick: 6000, thorough: 200000, case: hist::rnd_groups,
            rule: "seeded histories with edit blocks of 0-3 operations of every kind, nested blocks, undo, redo and history clearing" },
        Suite { prop: "C05", name: "enum_positions", exhaustive: true, quick: 1 + 4 + 16 + 64 + 256 + 1024, thorough: 1 + 4 + 16 + 64 + 256 + 1024 + 4096, case: nav::enum_positions,
            rule: "every document of at most 5 symbols over {letter, space, emoji, paragraph break} (6 in thorough) x every position and length x every lookup" },
        Suite { prop: "C05", name: "rnd_positions", exhaustive: false, quick: 800, thorough: 60000, case: nav::rnd_positions,
            rule: "seeded histories of 2-8 operations of every kind with undo and redo; every lookup at every position after each step" },
        Suite { prop: "C06", name: "enum_cursors", exhaustive: true, quick: c01::DOCS4 * 125, thorough: c01::DOCS4 * 125, case: nav::enum_cursors,
            rule: "every document of at most 4 symbols x every edit range x 5 edits, with an observing cursor at every position, and the undo of each" },
        Suite { prop: "C06", name: "rnd_cursors", exhaustive: false, quick: 10000, thorough: 300000, case: nav::rnd_cursors,
            rule: "seeded histories with four live cursors and selections" },
        Suite { prop: "C07", name: "enum_moves", exhaustive: true, quick: 1 + 5 + 25 + 125 + 625, thorough: 1 + 5 + 25 + 125 + 625 + 3125, case: nav::enum_moves,
            rule: "every document of at most 4 symbols over {letter, space, underscore, combining accent, paragraph break} (5 in thorough) x every position x every movement and selection command" },
        Suite { prop: "C07", name: "rnd_moves", exhaustive: false, quick: 250, thorough: 60000, case: nav::rnd_moves,
            rule: "seeded documents with emoji, flags, joined and accented clusters x every position x every movement and selection command" },
        Suite { prop: "C07", name: "rnd_words", exhaustive: false, quick: 400, thorough: 60000, case: nav::rnd_words,
            rule: "seeded documents of digits, numbers with separators, apostrophes, symbols, ideographs, kana, Hebrew, Thai, Hangul and invisible characters x every position x every movement and selection command" },
        Suite { prop: "C08", name: "rnd_quiet", exhaustive: false, quick: 12000, thorough: 300000, case: nav::rnd_quiet,
            rule: "seeded document and history, then one read, no-op or refused command out of 22 kinds" },
        Suite { prop: "C09", name: "enum_find", exhaustive: true, quick: find::FIND_DOCS, thorough: find::FIND_DOCS, case: find::enum_find,
            rule: "every text of at most 5 symbols over {a, A, space, paragraph break} x every query of 1-2 of them x case and word options, all matches and the first match from every position in both directions; non-trivial when something is found" },
        Suite { prop: "C09", name: "rnd_find", exhaustive: false, quick: 4000, thorough: 300000, case: find::rnd_find,
            rule: "seeded documents (a third with letters whose case changes their length) and histories, then searches in both directions from everywhere and replacements, compared with a naive matcher; non-trivial when something is replaced" },
        Suite { prop: "C10", name: "enum_events", exhaustive: true, quick: c01::DOCS4 * 175, thorough: c01::DOCS4 * 175, case: mirror::enum_events,
            rule: "every document of at most 4 symbols x every caret and anchor x 7 operations, their undo and redo, with a mirroring listener; non-trivial when the document changes" },
        Suite { prop: "C10", name: "rnd_events", exhaustive: false, quick: 10000, thorough: 300000, case: mirror::rnd_events,
            rule: "seeded histories of every operation with undo and redo, a mirroring listener fed by polling, one callback throughout and one registered late and dropped early" },
        Suite { prop: "C11", name: "enum_load", exhaustive: true, quick: 1 + 5 + 25 + 125 + 625, thorough: 1 + 5 + 25 + 125 + 625 + 3125, case: load::enum_load,
            rule: "every text of at most 4 symbols (5 in thorough) over {letter, accented letter, space, newline, carriage return}, loaded into a fresh document and over an edited, formatted one with live cursors" },
        Suite { prop: "C11", name: "rnd_load", exhaustive: false, quick: 3000, thorough: 100000, case: load::rnd_load,
            rule: "seeded histories, then texts with every kind of line ending, separators, joined emoji and control characters loaded over them, followed by an edit and its undo" },
        Suite { prop: "C12", name: "enum_paste", exhaustive: true, quick: c01::DOCS4 * 15, thorough: c01::DOCS4 * 15, case: paste::enum_paste,
            rule: "every document of at most 4 symbols with one bold character x every selection, pasted at every caret and over two selections of another document; non-trivial when something is selected" },
        Suite { prop: "C12", name: "rnd_paste", exhaustive: false, quick: 8000, thorough: 250000, case: paste::rnd_paste,
            rule: "seeded formatted source and target documents, copies whose source changes afterwards, pasted at carets and over selections" },
        Suite { prop: "C13", name: "enum_overlay", exhaustive: true, quick: 36 * 36 * 16, thorough: 36 * 36 * 32, case: hl::enum_overlay,
            rule: "every pair of highlight ranges (empty, inside, past the end, open-ended) over a 4-character paragraph with formats x each of the 16 attributes twice (and neighbouring pairs in thorough)" },
        Suite { prop: "C13", name: "rnd_highlight", exhaustive: false, quick: 6000, thorough: 200000, case: hl::rnd_highlight,
            rule: "seeded histories on a document with a stateful multi-paragraph highlighter and on a twin without; what is shown is compared with the twin overlaid by a full recomputation after each step" },
        Suite { prop: "C14", name: "enum_tiles", exhaustive: true, quick: 243 * 4, thorough: 243 * 4, case: paste::enum_tiles,
            rule: "every pattern of {plain, bold, italic} over 5 characters, built in 4 ways" },
        Suite { prop: "C14", name: "rnd_tiles", exhaustive: false, quick: 8000, thorough: 250000, case: paste::rnd_tiles,
            rule: "seeded histories of formatting and editing with undo and redo; fragments, snapshots and flow of every paragraph compared after each step" },
        Suite { prop: "C15", name: "enum_markers", exhaustive: true, quick: 32 * 41, thorough: 32 * 101, case: lists::enum_markers,
            rule: "every style x 4 prefixes and suffixes x every index up to 4100 (10100 in thorough)" },
        Suite { prop: "C15", name: "enum_long", exhaustive: true, quick: 8 * 30, thorough: 8 * 30, case: lists::enum_long,
            rule: "lists of 30 items in every style, every item removed from the list, another split, undo and redo" },
        Suite { prop: "C15", name: "rnd_lists", exhaustive: false, quick: 3000, thorough: 250000, case: lists::rnd_lists,
            rule: "seeded histories of list and editing operations with undo and redo; every list, item, index and marker compared with the paragraphs after each step" },
        Suite { prop: "C16", name: "enum_tables", exhaustive: true, quick: 729 * 45, thorough: 729 * 45, case: tables::enum_tables,
            rule: "every table up to 3x3 x every merge x every row and column insertion and removal, split and further merge, with undo and redo and every cell selection" },
        Suite { prop: "C16", name: "rnd_tables", exhaustive: false, quick: 2000, thorough: 150000, case: tables::rnd_tables,
            rule: "seeded histories of structure operations, typing in cells, undo and redo on one table; grid, cell lookups, cell texts and surrounding text compared after each step" },
        Suite { prop: "C18", name: "enum_export", exhaustive: true, quick: 181 * 6 * 4, thorough: 181 * 6 * 4, case: export::enum_export,
            rule: "every ASCII character but NUL and LF and 56 pieces of markup x alone, surrounded, doubled, in two paragraphs x plain, bold, italic, underline, strike-out, all four: HTML, LaTeX, Markdown and fragment exports decode to the text, HTML imports back" },
        Suite { prop: "C18", name: "rnd_export", exhaustive: false, quick: 4000, thorough: 300000, case: export::rnd_export,
            rule: "random documents of markup pieces with random character formats, headings, alignments and lists; exports decode to the text and formats, HTML imports back; exporting leaves the document alone" },
        Suite { prop: "C17", name: "rnd_meta", exhaustive: false, quick: 6000, thorough: 200000, case: load::rnd_meta,
            rule: "seeded histories of title, direction, wrapping and resource changes between edits, with undo and redo of everything at the end" },
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_hook();
    let all = suites();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let thorough = a[4] == "thorough";
            let limit: f64 = a[5].parse().unwrap();
            let mut out = vec![];
            for s in all.iter().filter(|s| s.prop == prop || s.name == prop || prop == "ALL") {
                let o = run::run(s, seed, thorough, limit);
                eprintln!("{} {}: {} cases, {} distinct, {} failures, {:.1}s", s.prop, s.name, o.evals, o.distinct, o.failures.len(), o.wall);
                for f in o.failures.iter().take(3) { eprintln!("  #{} {}\n    {}", f.index, f.msg, f.lines.join("\n    ")); }
                out.push(serde_json::json!({
                    "suite": s.name, "rule": s.rule, "exhaustive": s.exhaustive && o.completed, "completed": o.completed,
                    "evaluations": o.evals, "distinct_nontrivial": o.distinct, "samples": o.samples, "wall_s": o.wall,
                    "failures": o.failures.iter().take(10).map(|f| serde_json::json!({"suite": f.suite, "seed": f.seed, "index": f.index, "message": f.msg, "steps": f.lines})).collect::<Vec<_>>(),
                }));
            }
            println!("{}", serde_json::Value::Array(out));
        }
        Some("case") => {
            let s = all.iter().find(|s| s.name == a[2]).expect("suite");
            let (log, res) = one(s, a[3].parse().unwrap(), a[4].parse().unwrap());
            for l in &log.lines { println!("  {l}"); }
            match res { Ok(()) => println!("holds"), Err(m) => { println!("FAILS: {m}"); std::process::exit(1); } }
        }
        _ => { eprintln!("usage: tdharness run PROP SEED quick|thorough LIMIT_S | case SUITE SEED INDEX"); std::process::exit(2); }
    }
}
