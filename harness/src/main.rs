mod alloc;
mod consts;
mod dbg;
mod emit;
mod exec;
mod gen;
mod iter;
mod json;
mod large;
mod noise;
mod proj;
mod rng;
mod source;
mod visit;

use exec::{Scenario, Sink};
use json::J;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Lines go to the file at once when a session starts (so that a crash leaves
/// the session that caused it behind) and otherwise through a buffer.
struct FileSink {
    out: Arc<Mutex<BufWriter<File>>>,
    mark: Arc<Mutex<String>>,
    progress: Arc<AtomicU64>,
}
impl Sink for FileSink {
    fn line(&mut self, s: &str) {
        let mut o = self.out.lock().unwrap();
        o.write_all(s.as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
        if s.starts_with("{\"op\":\"open\"") {
            // a process that dies leaves the session that killed it behind
            o.flush().unwrap();
        }
        self.progress.fetch_add(1, Relaxed);
    }
    fn mark(&mut self, s: &str) {
        {
            let mut m = self.mark.lock().unwrap();
            m.clear();
            m.push_str(s);
        }
        self.progress.fetch_add(1, Relaxed);
    }
}

fn watchdog(sink: &FileSink) {
    let (out, mark, progress) = (sink.out.clone(), sink.mark.clone(), sink.progress.clone());
    std::thread::spawn(move || {
        let mut last = 0;
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = progress.load(Relaxed);
            if now != last {
                last = now;
                still = 0;
                continue;
            }
            still += 1;
            // 40 s without any call returning
            if still >= 80 {
                let m = mark.lock().unwrap().clone();
                let mut o = out.lock().unwrap();
                let body = m.strip_suffix('}').unwrap_or(&m);
                let _ = writeln!(o, "{body},\"panic\":\"no answer after 40 s\"}}");
                let _ = writeln!(o, "{{\"op\":\"close\"}}");
                let _ = o.flush();
                std::process::exit(3);
            }
        }
    });
}

/// Keep the current call where the parent finds it if this process dies.
fn crash_note(sink: &FileSink, path: &str) {
    // The mark is written on abnormal exit by the abort handlers below.
    let out = sink.out.clone();
    let mark = sink.mark.clone();
    let path = path.to_string();
    *CRASH.lock().unwrap() = Some(Box::new(move |why: &str| {
        let m = mark.try_lock().map(|m| m.clone()).unwrap_or_default();
        if let Ok(mut o) = out.try_lock() {
            let _ = o.flush();
            let body = m.strip_suffix('}').unwrap_or(&m);
            if !body.is_empty() {
                let _ = writeln!(o, "{body},\"panic\":\"{why}\"}}");
                let _ = writeln!(o, "{{\"op\":\"close\"}}");
                let _ = o.flush();
            }
        }
        let _ = &path;
    }));
}
type CrashFn = Box<dyn Fn(&str) + Send>;
static CRASH: Mutex<Option<CrashFn>> = Mutex::new(None);

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
}
extern "C" fn on_signal(sig: i32) {
    // Best effort: the process is lost anyway.
    if let Ok(c) = CRASH.try_lock() {
        if let Some(f) = &*c {
            f(match sig {
                6 => "abort (out of memory or a panic that could not unwind)",
                11 => "segmentation fault or stack overflow",
                7 => "bus error",
                4 => "illegal instruction",
                _ => "fatal signal",
            });
        }
    }
    unsafe { _exit(4) }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

/// The stack a call may use, whatever its input.
const STACK: usize = 1 << 20;

fn main() {
    let t = std::thread::Builder::new().stack_size(STACK).spawn(run).unwrap();
    if t.join().is_err() {
        std::process::exit(5);
    }
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let out = arg(&args, "--out").expect("--out FILE");
    std::panic::set_hook(Box::new(|_| {}));
    let file = File::create(&out).unwrap();
    let mut sink = FileSink {
        out: Arc::new(Mutex::new(BufWriter::with_capacity(1 << 16, file))),
        mark: Arc::new(Mutex::new(String::with_capacity(1 << 16))),
        progress: Arc::new(AtomicU64::new(0)),
    };
    crash_note(&sink, &out);
    watchdog(&sink);
    for s in [4, 6, 7, 11] {
        unsafe { signal(s, on_signal as usize) };
    }
    if args.iter().any(|a| a == "--events") {
        source::EVENTS.store(true, Relaxed);
    }
    let mut sessions = 0u64;
    match cmd.as_str() {
        "run" => {
            let prop = arg(&args, "--prop").unwrap();
            let seed: u64 = arg(&args, "--seed").map_or(1, |s| s.parse().unwrap());
            let scale: f64 = arg(&args, "--scale").map_or(1.0, |s| s.parse().unwrap());
            let shard = arg(&args, "--shard").unwrap_or("0/1".into());
            let (a, b) = shard.split_once('/').unwrap();
            let mut g = gen::Gen::new(seed, scale, a.parse().unwrap(), b.parse().unwrap());
            let mut emit = |sc: Scenario| {
                noise::threads(sessions % 32 < 8);
                exec::run(&sc, &mut sink);
                sessions += 1;
            };
            gen::generate(&prop, &mut g, &mut emit);
        }
        "replay" => {
            // sessions in a trace or scenario file: open lines followed by ops
            let f = BufReader::new(File::open(arg(&args, "--in").unwrap()).unwrap());
            let mut cur: Option<(J, Vec<J>)> = None;
            let mut all = vec![];
            for l in f.lines() {
                let l = l.unwrap();
                if l.trim().is_empty() {
                    continue;
                }
                let j = J::parse(&l);
                match j.get("op").unwrap().str() {
                    "open" => {
                        all.extend(cur.take());
                        cur = Some((j, vec![]));
                    }
                    "again" | "owned" | "held" | "idle" | "close" => (),
                    _ => {
                        if let Some(c) = &mut cur {
                            c.1.push(strip(j))
                        }
                    }
                }
            }
            all.extend(cur.take());
            for (o, ops) in all {
                noise::threads(sessions % 32 < 8);
                exec::run(&Scenario::from_json(&o, ops), &mut sink);
                sessions += 1;
            }
        }
        _ => panic!("usage: harness run|replay"),
    }
    noise::threads(false);
    *CRASH.lock().unwrap() = None;
    sink.out.lock().unwrap().flush().unwrap();
    println!("sessions {sessions}");
}

/// Only what the caller chose, not what was observed.
fn strip(j: J) -> J {
    const ARGS: [&str; 7] = ["op", "n", "t", "q", "h", "w", "script"];
    match j {
        J::O(f) => {
            let failed = f.iter().any(|(k, v)| k == "ok" && *v == J::B(false));
            J::O(f
                .into_iter()
                .filter(|(k, v)| {
                    ARGS.contains(&k.as_str())
                        // a failed call has its cause under "c"
                        && !(k == "c" && failed && matches!(v, J::A(_)))
                })
                .collect())
        }
        j => j,
    }
}
