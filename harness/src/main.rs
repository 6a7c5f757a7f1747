mod caps;
mod dev;
mod interpose;
mod mem;
mod model_screen;
mod props_conc;
mod props_data;
mod props_err;
mod props_fd;
mod props_info;
mod props_input;
mod props_lin;
mod props_macro;
mod props_mem;
mod props_prep;
mod props_screen;
mod props_sig;
mod props_step;
mod props_term;
mod run;
mod step;
mod ti;
mod util;
mod vt;

use run::{Prop, Tier};

#[global_allocator]
static MEMORY: mem::Counting = mem::Counting;

fn props() -> Vec<Prop> {
    const TRUST: &[&str] = &["the emulator's and the library's character widths come from the same table"];
    fn p(id: &'static str, case: fn(&mut run::Ctx) -> run::CaseResult, quick: u64, thorough: u64, need: &'static [&'static str], rule: &'static str) -> Prop {
        Prop{id, case, quick, thorough, need, rule, level: "exploration", exhaustive: None, workers: 8, assumptions: TRUST, hang_s: 30}
    }
    const SRULE: &str = "seeded random history of drawing calls, guards, refreshes on a random terminal type and size, with short and interrupted device writes; every refresh is compared cell by cell; distinct = distinct recorded history";
    vec![
        p("S01", props_screen::s01, 80_000, 200_000, &["refreshes compared", "write guards dropped by a panic", "line wraps", "short or interrupted writes injected"], SRULE),
        p("S02", props_screen::s02, 80_000, 200_000, &["refreshes compared", "line wraps", "writes dropped out of bounds", "cursor positions compared"], SRULE),
        p("S03", props_screen::s03, 80_000, 200_000, &["refreshes compared", "wide characters broken up", "combining marks placed"], SRULE),
        p("S04", props_screen::s04, 80_000, 200_000, &["refreshes compared", "invisible characters ignored"], SRULE),
        p("S05", props_screen::s05, 80_000, 200_000, &["refreshes compared", "resizes", "resizes to nothing"], SRULE),
        p("S08", props_screen::s08, 12_000, 500_000, &["refreshes compared", "device errors injected", "refreshes that failed"],
            "seeded random history of drawing, mostly on screens that take several writes to show, with refreshes during which the device fails at random; every refresh that follows with the device working is compared cell by cell; distinct = distinct recorded history"),
        p("S09", props_screen::s09, 60_000, 500_000, &["calls that sent nothing", "refreshes with nothing changed", "refreshes with something changed", "refreshes of everything", "cells kept", "cells overwritten and written again"],
            "seeded random history of drawing, refreshes and resizes; every byte sent is attributed to a refresh, and every character written and every change of the display to a cell whose content has changed; distinct = distinct recorded history"),
        p("T01", props_term::t01, 80_000, 1_000_000, &["write calls", "write calls that failed", "output delivered after an error", "guards dropped by a panic", "short or interrupted writes injected"],
            "seeded random sequence of writes of 0 to 30000 bytes through guards and direct calls, with short, interrupted and failing device writes; the device's bytes are compared after every flush, guard drop and direct call; distinct = distinct recorded history"),
        p("T02", props_term::t02, 80_000, 1_000_000, &["attribute operations", "display comparisons", "characters compared with attributes"],
            "seeded random sequence of attribute and text calls on a random terminal type; every cell's text and attributes are compared; distinct = distinct recorded history"),
        p("T03", props_term::t03, 400_000, 1_000_000, &["operations", "operations sent together", "clears", "moves by huge counts", "moves by zero", "unsupported operations refused", "cursor modes compared", "drops compared"],
            "seeded random sequence of cursor and erase calls with counts from 0 to the maximum on a random terminal type; cursor, cells and bytes sent are compared after each; distinct = distinct recorded history"),
        p("T06", props_macro::t06, 200_000, 1_000_000, &["displays compared", "chains stopped by an error", "chains completed", "elements not evaluated after an error"],
            "one of 57 macro invocations in turn followed by random others, on a Terminal, Screen or guard; the display and attributes left are compared with those of the documented calls on a fresh terminal; every fifth case injects a device error and counts evaluated elements; distinct = distinct recorded case"),
        p("T07", props_err::t07, 100_000, 500_000, &["errors reported", "write errors", "read errors", "wait errors", "size errors", "line settings errors", "handler errors", "unusable capabilities reported", "inputs compared", "states compared"],
            "seeded random operation of every kind that returns a result, run again with the device failing at each of its calls in turn, or on a terminal type with one capability that cannot be expanded; distinct = distinct recorded case"),
        p("T08", props_info::t08, 100_000, 600_000, &["terminals opened", "types without description refused", "sizes compared", "names compared", "writes followed", "inputs followed", "drops followed", "preparations followed", "steps with several prepared"],
            "up to three Terminals or Screens, on standard output, standard error or by path, with standard input, output and error on three different pseudo-terminals; every write, read, size, preparation and drop is attributed to a device; distinct = distinct recorded history"),
        p("T04", props_conc::t04, 8_000, 200_000, &["units checked", "changes of writer observed"],
            "2-6 threads write labelled units through guards, direct calls and macros, with delayed, short and interrupted device writes; the device's bytes are parsed: every unit whole, in its thread's order, with its attributes; distinct = distinct order of units"),
        p("T05", props_conc::t05, 12_000, 200_000, &["preparations in stress", "lock combinations probed", "operations done while a reader waited", "reads done while a writer held its guard", "panics with a guard held", "read guards held in stress", "write guards held in stress", "signals raised in stress"],
            "eight scenarios in turn on a Terminal or Screen with a real pty: lock matrix, blocked reader, blocked writer, poisoning, and random threads with signals and input; distinct = distinct scenario content"),
        p("T09", props_lin::t09, 4_000, 60_000, &["schedules compared", "switches at an instruction", "switches to a thread that went on", "schedules with results of their own", "Terminals compared", "Screens compared", "two Terminals compared"],
            "two threads make up to two calls each (output, guards, reads, sizes, prepare, restore, drawing, refreshes, resizes) on one object, or on two Terminals of one device, and take turns at random instructions; results, device bytes or display, input left and settings must be those of some sequential order, each of which is performed for comparison; distinct = distinct recorded case; states = distinct instructions switched at"),
        p("S07", props_conc::s07, 30_000, 200_000, &["guards checked", "direct drawing calls checked", "displays checked between threads", "pieces of shared text checked"],
            "2-5 threads draw their own line and two shared lines through guards and single calls while another refreshes, moves the cursor and reads; the display is compared whenever the writing thread changes, and at the end; distinct = distinct order of writers"),
        p("S06", props_prep::s06, 100_000, 500_000, &["drops compared", "screens without cells", "panics with guards held", "drops while unwinding", "failed creations compared", "failures installing handlers", "failures changing line settings", "failures writing"],
            "random line settings, signal handlers, terminal type and configuration; the kernel's and the emulated terminal's state is compared before creation and after the drop, a panic, or creation failing at each system call in turn; distinct = distinct recorded case"),
        p("P01", props_prep::p01, 400_000, 500_000, &["preparations compared", "preparations with mouse", "preparations with keypad", "signals raised and read", "typed input read"],
            "random line settings, signal handlers, terminal type and configuration; kernel and terminal state after prepare compared bit by bit with what was asked for, every intercepted signal raised and read; distinct = distinct recorded case"),
        p("P02", props_prep::p02, 100_000, 500_000, &["restores compared", "nested restores compared", "signals raised and read", "resumes", "input typed ahead"],
            "random nesting of prepare and restore to depth 5 with reads, writes, signals and resumes in between; complete state compared with that before the matching prepare; distinct = distinct recorded history"),
        p("P03", props_prep::p03, 400_000, 500_000, &["resumes compared", "restores after resuming compared", "resumes with nothing prepared", "resumes within a character"],
            "one to five suspensions with random line settings and modes left behind, then SIGCONT and a read; state compared with the configuration, and after the restore with the original; distinct = distinct recorded history"),
        p("I01", props_input::i01, 200_000, 1_000_000, &["events compared", "special keys", "escapes", "control keys", "waits compared", "short or interrupted reads injected"],
            "seeded random stream of key sequences, characters and controls of a random terminal type, arriving in up to 8 pieces with up to 400 keys piled up, short and interrupted reads; every event is compared with a longest-match decoding of what has arrived; distinct = distinct recorded stream"),
        p("I02", props_input::i02, 200_000, 1_000_000, &["reports compared", "malformed reports", "reports on other terminal types", "short or interrupted reads injected"],
            "seeded random sequence of well-formed and malformed mouse reports and letters, piled up, with short reads; the mouse events and letters read are compared with those sent; distinct = distinct recorded stream"),
        p("I03", props_input::i03, 120_000, 1_000_000, &["events followed", "raw bytes followed", "waits in between", "signals during reads", "streams through the kernel", "characters read by several threads", "short or interrupted reads injected"],
            "seeded random byte stream in arbitrary pieces read by a random mix of read_event, read_raw with buffers of 0 to 300 bytes and wait_event, on a virtual device and (every fifth case) on a real pseudo-terminal; everything returned is matched against the stream; distinct = distinct recorded stream"),
        p("I04", props_input::i04, 120_000, 1_000_000, &["sentinels read", "errors reported", "keys read"],
            "seeded hostile byte streams (invalid UTF-8, truncated and absurd sequences, digit runs, random bytes) with valid characters in between; every valid character must be read within a bounded number of calls; distinct = distinct recorded stream"),
        Prop{workers: 8, ..p("I05", props_input::i05, 1_600, 10_000, &["timeouts waited for", "arrivals during a wait", "input there already", "input buffered", "invalid input buffered", "waits interrupted by signals", "long waits", "interruptions of long waits"],
            "five time-stamped waiting or reading calls per case on a real pseudo-terminal: nothing comes, input comes at a random time, is there, is buffered, or unrelated signals keep interrupting; timeouts from 0 to the maximum; distinct = distinct recorded case")},
        p("G01", props_sig::g01, 25_000, 400_000, &["signals reported", "signals raised at a system call", "signals raised from another thread", "rounds with several signals", "signals raced", "unrequested signals not reported", "resize events compared", "waits with a signal pending"],
            "one to five rounds of signals raised before, at the system calls of, and from another thread during the reads of one to three threads, with typed text in between, any set of requested signals, virtual and real device; events are balanced against what was raised; distinct = distinct recorded case"),
        p("G02", props_sig::g02, 30_000, 150_000, &["woken by a signal at a system call", "woken by a signal at a random instant", "woken by a signal at an instruction", "signals at an instruction after waiting"],
            "six blocking calls per case on a real pseudo-terminal, each ended by one signal raised at a system call or at a random instant from another thread, some after unrelated signals; a thread samples the reader's state and rescues it; distinct = distinct recorded case"),
        p("G03", props_step::g03, 4_000, 60_000, &["outputs compared", "screens compared", "inputs compared", "states compared", "signals at an instruction", "signals reported", "signals handled by the program"],
            "one operation per case (output, drawing and refreshing, reading, prepare, restore, creating or dropping a Screen), performed once undisturbed and then again and again with one to four signals raised at random instructions of it; output, results, input and state are compared, every signal is accounted for; distinct = distinct recorded case; states = distinct instructions at which a signal was handled"),
        p("R01", props_fd::r01, 100_000, 400_000, &["terminals opened by path", "failed opens", "failed screens", "screens started", "drops", "decoys", "descriptor tables compared", "descriptor flags compared", "concurrent opens and drops"],
            "seeded random history of opens (by path, on standard streams, of devices and of what is none, with known and unknown terminal types), screens, uses, failures at a random system call and drops in five ways; the descriptor table is compared after each; distinct = distinct recorded history"),
        p("R04", props_mem::r04, 8_000, 400_000, &["terminals followed", "screens followed", "drops with nothing left", "failed creations followed", "bytes streamed", "rounds repeated", "allocations followed", "device errors injected"],
            "a random list of steps on a Terminal or Screen (output, drawing, resizes, nested preparations, hostile input read in every way, signals, device errors) performed again and again, creations failing at each call, and megabytes through one guard; allocations made in the library's calls are balanced against those freed; distinct = distinct recorded case"),
        p("D01", props_data::d01, 300_000, 3_000_000, &["operations compared", "prefixes classified", "find Undecided", "duplicate keys in construction"],
            "seeded random history of every SequenceMap operation against a sorted map; the whole content is compared after every operation; distinct = distinct recorded history"),
        Prop{level: "exploration", exhaustive: Some(64), ..p("D02", props_data::d02, 64, 64, &["set pairs compared", "single-signal operations"],
            "every one of the 64 sets with every signal and every other set; distinct = distinct left operand")},
        Prop{level: "exploration", ..p("D03", props_data::d03, 272 + 200_000, 272 + 1_000_000, &["characters classified", "strings split into prefixes", "cursor positions compared", "themes compared"],
            "cases 0-271 enumerate every char; the others are seeded random strings, sizes, positions and themes; distinct = distinct case content")},
    ]
}

fn tier_of(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) });
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => run::check(find(&a[2]), seed, tier),
        Some("worker") => run::worker(find(&a[2]), a[3].parse().unwrap(), tier_of(&a[4]), std::path::Path::new(&a[5]),
            a[6].parse().unwrap(), a[7].parse().unwrap(), a[8].parse().unwrap(), a[9].parse().unwrap(), a[10].parse().unwrap(), a[11] == "single"),
        Some("case") => run::replay(find(&a[2]), seed, tier, a[3].parse().unwrap()),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default();
            run::replay(find(&get("property ")), get("seed ").parse().unwrap_or(1), tier_of(&get("tier ")), get("case ").parse().unwrap_or(0))
        }
        Some("san") => run::sanitize(&ps, &a[2], &a[3], seed, tier),
        Some("list") => { for p in &ps { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: mon check|case|replay|list"); 2 }
    };
    std::process::exit(code);
}
