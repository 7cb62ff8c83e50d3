//! Supervision: the cases run in a child process, so that an abort of the code under test (memory
//! exhaustion, stack overflow) is a verdict about the case that caused it, and not the end of the check.
use crate::core::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::Command;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static JOURNAL: Mutex<Option<std::fs::File>> = Mutex::new(None);
const MAX_RSS_MB: usize = 10_000;

pub fn journal(line: String) {
    if let Some(f) = JOURNAL.lock().unwrap().as_mut() {
        let _ = f.write_all(format!("{}\n", line.replace('\n', " ")).as_bytes());
    }
}

pub fn rss_mb() -> usize {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<usize>().ok()))
        .unwrap_or(0)
        * 4
        / 1024
}

/// In the child: opens the journal and ends the process when it takes too much memory.
pub fn start_child() {
    if let Ok(p) = std::env::var("DDRT_JOURNAL") {
        *JOURNAL.lock().unwrap() = std::fs::OpenOptions::new().append(true).create(true).open(p).ok();
    }
    std::thread::Builder::new()
        .name("memory-guard".into())
        .spawn(|| {
            loop {
                let m = rss_mb();
                if m > MAX_RSS_MB {
                    journal(format!("M {m}"));
                    eprintln!("memory: {m} MB resident, giving up");
                    std::process::abort();
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        })
        .unwrap();
}

fn child(args: &[String], journal: &std::path::Path) -> Result<i32, String> {
    use std::os::unix::process::ExitStatusExt;
    let st = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("DDRT_CHILD", "1")
        .env("DDRT_JOURNAL", journal)
        .status()
        .map_err(|e| format!("cannot start: {e}"))?;
    match st.code() {
        Some(c) if c == 0 || c == 1 => Ok(c),
        Some(c) => Err(format!("exit code {c}")),
        None => Err(format!("signal {}", st.signal().unwrap_or(0))),
    }
}

pub fn supervise(plan: &Plan, tier: Tier, seed: u64, args: &[String], replay: bool) -> i32 {
    let start = Instant::now();
    let jpath = std::env::temp_dir().join(format!("ddrt-journal-{}", std::process::id()));
    let mut attempts = 0;
    let code = loop {
        let _ = std::fs::remove_file(&jpath);
        attempts += 1;
        let why = match child(args, &jpath) {
            Ok(c) => break c,
            Err(e) => e,
        };
        eprintln!("the process running the cases died: {why}");
        let mut running: BTreeMap<u64, ()> = BTreeMap::new();
        let mut results: BTreeMap<u64, (CaseResult, f64)> = BTreeMap::new();
        let mut memory = false;
        for l in std::fs::read_to_string(&jpath).unwrap_or_default().lines() {
            let mut f = l.splitn(3, ' ');
            let (k, idx) = (f.next().unwrap_or(""), f.next().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0));
            let rest = f.next().unwrap_or("");
            match k {
                "S" => {
                    running.insert(idx, ());
                }
                "E" => {
                    running.remove(&idx);
                    results.entry(idx).or_insert((CaseResult::ok(), 0.0));
                }
                "V" => {
                    running.remove(&idx);
                    let (s, d) = rest.split_once('\t').unwrap_or((rest, ""));
                    results.insert(idx, (CaseResult::viol(s, d), 0.0));
                }
                "M" => memory = true,
                _ => {}
            }
        }
        // Which of the cases in flight does it?
        let mut culprits = 0;
        for idx in running.keys() {
            if culprits >= 2 || start.elapsed().as_secs() > 500 {
                break;
            }
            let j2 = jpath.with_extension("one");
            let one: Vec<String> = vec!["case".into(), plan.prop.to_string(), idx.to_string()];
            unsafe { std::env::set_var("VERIF_TIER", if tier == Tier::Quick { "quick" } else { "thorough" }) };
            if let Err(e) = child(&one, &j2) {
                culprits += 1;
                let mem = std::fs::read_to_string(&j2).unwrap_or_default().lines().any(|l| l.starts_with("M "));
                let what = if mem { "memory-exhausted" } else { "process-aborted" };
                results.insert(*idx, (CaseResult::viol(what, format!("running the case ended the process: {e} ({what})")), 0.0));
            }
            let _ = std::fs::remove_file(&j2);
        }
        let any = results.values().any(|r| matches!(r.0.verdict, Verdict::Violation(..)));
        if any || replay {
            break finish(plan, tier, seed, start, results, load_known(plan.prop), replay);
        }
        if attempts >= 2 {
            // Twice, but none of the cases alone: the cases together do it.
            let idx = running.keys().next().copied().unwrap_or(0);
            let what = if memory { "memory-exhausted" } else { "process-aborted" };
            results.insert(idx, (CaseResult::viol(what, format!("the process running the cases died twice ({why}); in flight: {:?}", running.keys())), 0.0));
            break finish(plan, tier, seed, start, results, load_known(plan.prop), replay);
        }
    };
    let _ = std::fs::remove_file(&jpath);
    code
}
