//! Conformance harness: binds the TLA+ specification in `/verif/spec` to the `compose_spec` crate.
//!
//! * `replay FILE`: every case in FILE (one JSON object `{op, in, out}` per line, as emitted by TLC
//!   or by hand) is executed against the real crate, and the observation compared with `out`.
//! * `record AREA SEED COUNT`: generates COUNT operations of AREA at random, executes them, and
//!   writes `{op, in, out}` lines for TLC to validate against the specification.
//! * `observe`: reads `{op, in}` lines on stdin and prints what is observed.

mod gen;
mod ops;
mod util;

use std::{
    fs::File,
    io::{self, BufRead, BufReader, BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicU64, Ordering},
    time::Duration,
};

use serde_json::{json, Value};

/// Index of the case currently executing, for the watchdog.
static CURRENT: AtomicU64 = AtomicU64::new(0);

/// Execute one operation; a panic is an observation like any other.
pub fn observe(op: &str, input: &Value) -> Value {
    CURRENT.fetch_add(1, Ordering::Relaxed);
    match catch_unwind(AssertUnwindSafe(|| ops::run(op, input))) {
        Ok(value) => value,
        Err(payload) => {
            let msg = payload
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| payload.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                .unwrap_or_default();
            json!({ "panic": msg })
        }
    }
}

/// End the process (code 97) when a single operation runs for more than 20 seconds.
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = CURRENT.load(Ordering::Relaxed);
            if now == last && now > 0 {
                since += 1;
                if since >= 20 {
                    eprintln!("HANG in operation {now}");
                    std::process::exit(97);
                }
            } else {
                since = 0;
                last = now;
            }
        }
    });
}

/// Decode one line of a case file: plain JSON, or a TLC `PrintT` line `"CASE {...}"`.
fn decode(line: &str) -> Option<Value> {
    if line.starts_with('{') {
        serde_json::from_str(line).ok()
    } else if line.starts_with("\"CASE ") {
        let text: String = serde_json::from_str(line).ok()?;
        serde_json::from_str(text.strip_prefix("CASE ")?).ok()
    } else {
        None
    }
}

/// Whether an observation is what the specification demands; it may leave a choice (`oneof`), or,
/// in a document, the order of a mapping (kind `o`).
fn conforms(got: &Value, demanded: &Value) -> bool {
    match demanded {
        Value::Object(map) => match map.get("oneof") {
            Some(Value::Array(choices)) => choices.contains(got),
            _ if map.get("t").is_some_and(|t| t == "o") && map.contains_key("c") => {
                let (Some(have), Some(want)) = (got["c"].as_array(), map["c"].as_array()) else { return false };
                got["t"] == "m"
                    && got["k"] == map["k"]
                    && have.len() == want.len()
                    && want.iter().all(|want| {
                        have.iter().find(|have| have["k"] == want["k"]).is_some_and(|have| conforms(have, want))
                    })
            }
            _ => got.as_object().is_some_and(|got| {
                got.len() == map.len() && map.iter().all(|(k, v)| got.get(k).is_some_and(|got| conforms(got, v)))
            }),
        },
        Value::Array(want) => got
            .as_array()
            .is_some_and(|got| got.len() == want.len() && got.iter().zip(want).all(|(got, want)| conforms(got, want))),
        _ => got == demanded,
    }
}

fn main() -> io::Result<()> {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("replay") => replay(&args[2], args.get(3).map(String::as_str)),
        Some("record") => {
            let seed = args[3].parse().expect("seed");
            let count = args[4].parse().expect("count");
            let mut out = BufWriter::new(io::stdout().lock());
            let mut rng = gen::Rng::new(seed);
            for _ in 0..count {
                let (op, input) = gen::generate(&args[2], &mut rng);
                // The input is written first, so that it is known if the operation kills us.
                let got = observe(&op, &input);
                writeln!(out, "{}", json!({ "op": op, "in": input, "out": got }))?;
            }
            out.flush()
        }
        Some("inputs") => {
            let seed = args[3].parse().expect("seed");
            let count = args[4].parse().expect("count");
            let mut out = BufWriter::new(io::stdout().lock());
            let mut rng = gen::Rng::new(seed);
            for _ in 0..count {
                let (op, input) = gen::generate(&args[2], &mut rng);
                writeln!(out, "{}", json!({ "op": op, "in": input }))?;
            }
            out.flush()
        }
        Some("observe") => {
            for line in io::stdin().lock().lines() {
                if let Some(case) = decode(&line?) {
                    let op = case["op"].as_str().unwrap_or_default();
                    println!("{}", observe(op, &case["in"]));
                }
            }
            Ok(())
        }
        _ => {
            eprintln!("usage: conformance replay FILE | record AREA SEED COUNT | observe");
            std::process::exit(2);
        }
    }
}

/// Replay all cases; mismatches and a summary are written to stdout.
///
/// With a second argument, each case is written to that file before it is executed.
fn replay(file: &str, journal: Option<&str>) -> io::Result<()> {
    let mut out = BufWriter::new(io::stdout().lock());
    let mut counts = std::collections::BTreeMap::<String, (u64, u64)>::new();
    let (mut cases, mut mismatches, mut undecoded) = (0_u64, 0_u64, 0_u64);
    let mut seen = std::collections::HashSet::new();
    let mut samples = std::collections::BTreeMap::<String, Vec<Value>>::new();
    let reader = BufReader::with_capacity(1 << 20, File::open(file)?);
    for line in reader.lines() {
        let line = line?;
        let Some(case) = decode(&line) else {
            if line.starts_with("\"CASE ") || line.starts_with('{') {
                undecoded += 1;
            }
            continue;
        };
        let op = case["op"].as_str().unwrap_or_default();
        // The same case can be reached along several paths of the state graph.
        if !seen.insert(util::hash64(&format!("{op}\u{0}{}", case["in"]))) {
            continue;
        }
        if let Some(journal) = journal {
            std::fs::write(journal, case.to_string())?;
        }
        cases += 1;
        let got = observe(op, &case["in"]);
        let entry = counts.entry(op.to_owned()).or_default();
        entry.0 += 1;
        if got.get("unknown-op").is_some() {
            undecoded += 1;
        }
        let accepted = case["out"]["ok"] != json!(false);
        entry.1 += u64::from(accepted);
        // A few cases for the evidence: the 1st, 30th, 900th... accepted.
        let kept = samples.entry(op.to_owned()).or_default();
        if accepted && (entry.1 == 1 || entry.1 == 30 || entry.1 == 900) {
            kept.push(case.clone());
        }
        if !conforms(&got, &case["out"]) {
            mismatches += 1;
            if mismatches <= 2000 {
                writeln!(
                    out,
                    "{}",
                    json!({ "op": op, "in": case["in"], "out": case["out"], "got": got })
                )?;
            }
        }
    }
    let per_op: serde_json::Map<String, Value> = counts
        .into_iter()
        .map(|(op, (n, accepted))| (op, json!({ "cases": n, "accepted": accepted })))
        .collect();
    writeln!(
        out,
        "SUMMARY {}",
        json!({ "cases": cases, "mismatches": mismatches, "undecoded": undecoded, "ops": per_op,
            "samples": samples.into_values().flatten().collect::<Vec<_>>() })
    )?;
    out.flush()
}
