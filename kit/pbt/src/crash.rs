//! Cases that end the process (stack overflow, abort, memory exhausted) or never end. The check runs in a
//! child process; a dying child leaves the choices of its case behind and the parent shrinks them.
use std::cell::Cell;
use std::ffi::CString;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitStatus};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::Src;

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn raise(sig: i32) -> i32;
    fn pause() -> i32;
    fn open(path: *const i8, flags: i32, mode: u32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}
/// A case takes milliseconds; one that takes this long does not return.
pub const LIMIT: u64 = 150;
pub const SLOTS: usize = 9;
thread_local! {
    static SRC: Cell<*const Src> = const { Cell::new(std::ptr::null()) };
    static SLOT: Cell<usize> = const { Cell::new(SLOTS - 1) };
}
/// What each thread is at: the case's number and when it began (ms since START, 0: nothing).
static CASE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static BEGAN: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static PATH: AtomicPtr<i8> = AtomicPtr::new(std::ptr::null_mut());
static FIRST: AtomicBool = AtomicBool::new(false);
static HEAD: AtomicPtr<String> = AtomicPtr::new(std::ptr::null_mut());

fn ms() -> u64 { static S: std::sync::OnceLock<Instant> = std::sync::OnceLock::new(); S.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1 }
pub fn slot(n: usize) { SLOT.with(|s| s.set(n)); }
/// Marks the beginning of a case on this thread.
pub fn begin(src: *const Src, case: u64) { let n = SLOT.with(Cell::get); CASE[n].store(case, SeqCst); SRC.with(|s| s.set(src)); BEGAN[n].store(ms(), SeqCst); }
pub fn end() { let n = SLOT.with(Cell::get); BEGAN[n].store(0, SeqCst); SRC.with(|s| s.set(std::ptr::null())); }
/// The sub-check the cases now belong to.
pub fn at(id: &str, sub: &str, seed: u64) {
    let h = format!("{{\"property\": {}, \"sub\": {}, \"seed\": {seed}, ", json!(id), json!(sub));
    HEAD.store(Box::into_raw(Box::new(h)), SeqCst);
}
fn digits(mut n: u64, b: &mut [u8; 24]) -> usize {
    let mut i = b.len();
    loop { i -= 1; b[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { return i; } }
}
extern "C" fn died(sig: i32) {
    // only reads memory and writes to a file: nothing here allocates or locks
    unsafe {
        // one note; whoever dies next waits for the end
        if FIRST.swap(true, SeqCst) { loop { pause(); } }
        let (path, head, src) = (PATH.load(SeqCst), HEAD.load(SeqCst), SRC.with(Cell::get));
        if !path.is_null() && !head.is_null() && !src.is_null() {
            let fd = open(path, 0o1 | 0o100 | 0o1000, 0o644);
            let put = |t: &[u8]| { write(fd, t.as_ptr(), t.len()); };
            let mut b = [0; 24];
            put((*head).as_bytes());
            put(b"\"tape\": [");
            for (i, v) in (*src).used().iter().enumerate() { if i > 0 { put(b","); } let at = digits(*v, &mut b); put(&b[at..]); }
            put(b"]}");
        }
        signal(sig, 0);
        raise(sig);
    }
}
fn file(root: &str, id: &str) -> String { format!("{root}/evidence/replay/{id}-died.json") }
/// In the child: leave a note when dying, give up on a case that does not return.
pub fn child(root: &str, id: &str) {
    ms();
    PATH.store(CString::new(file(root, id)).unwrap().into_raw(), SeqCst);
    unsafe { for s in [6, 4, 7, 8] { signal(s, died as usize); } }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        let now = ms();
        for i in 0..SLOTS {
            let b = BEGAN[i].load(SeqCst);
            if b == 0 || now.saturating_sub(b) < LIMIT * 1000 || BEGAN[i].load(SeqCst) != b { continue; }
            let head = HEAD.load(SeqCst);
            let path = unsafe { std::ffi::CStr::from_ptr(PATH.load(SeqCst)) }.to_str().unwrap().to_string();
            let text = format!("{}\"case\": {}, \"message\": \"does not return\"}}", unsafe { &*head }, CASE[i].load(SeqCst));
            let _ = std::fs::write(path, text);
            std::process::exit(42);
        }
    });
}
fn again(v: &Value, root: &str, id: &str, wait: u64) -> Option<ExitStatus> {
    let tmp = format!("{root}/evidence/replay/.{id}-try.json");
    std::fs::write(&tmp, v.to_string()).ok()?;
    let mut c = Command::new(std::env::current_exe().ok()?).args(std::env::args().skip(1)).env("VERIF_CHILD", "1").env("VERIF_REPLAY", &tmp)
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    let r = loop {
        match c.try_wait() { Ok(Some(s)) => break Some(s), _ if t.elapsed() > Duration::from_secs(wait) => { let _ = c.kill(); let _ = c.wait(); break None; } _ => std::thread::sleep(Duration::from_millis(2)) }
    };
    let _ = std::fs::remove_file(&tmp);
    r
}
/// In the parent: run the child, and make a violation of its death.
pub fn supervise(root: &str, id: &str, tier: &str, seed: u64) -> ! {
    let (note, start) = (file(root, id), Instant::now());
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    let _ = std::fs::remove_file(&note);
    let st = Command::new(std::env::current_exe().expect("exe")).args(std::env::args().skip(1)).env("VERIF_CHILD", "1").status().expect("child");
    if let Some(c) = st.code() { if c != 42 { std::process::exit(c); } }
    let Some(mut v) = std::fs::read_to_string(&note).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { eprintln!("the check ended ({st}) without a verdict"); std::process::exit(3) };
    let what = if st.code() == Some(42) { "does-not-return".to_string() } else { format!("died of signal {}", st.signal().unwrap_or(0)) };
    if let Some(t) = v["tape"].as_array().cloned() {
        let mut best: Vec<u64> = t.iter().filter_map(Value::as_u64).collect();
        let dies = |t: &[u64]| { let mut w = v.clone(); w["tape"] = json!(t); again(&w, root, id, 10).is_some_and(|s| s.code().is_none()) };
        let begin = Instant::now();
        let mut w = (best.len() / 2).max(1);
        while begin.elapsed() < Duration::from_secs(90) {
            let mut i = 0;
            let before = best.len();
            while i < best.len() && begin.elapsed() < Duration::from_secs(90) {
                let mut t = best.clone();
                t.drain(i..(i + w).min(best.len()));
                if dies(&t) { best = t; } else { i += w; }
            }
            if w == 1 && best.len() == before { break; }
            w = (w / 2).max(1);
        }
        let mut i = 0;
        while i < best.len() && begin.elapsed() < Duration::from_secs(120) { if best[i] != 0 { let mut t = best.clone(); t[i] = 0; if dies(&t) { best = t; } } i += 1; }
        v["tape"] = json!(best);
    }
    v["signature"] = json!(what);
    v["how"] = json!(format!("bash run.sh {id} replay {note}"));
    let _ = std::fs::write(&note, serde_json::to_string_pretty(&v).unwrap());
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": start.elapsed().as_secs_f64(), "violations": 1, "assumptions": [],
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case that ended the process or did not return", "samples": [v.to_string()]}});
    let _ = std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap());
    println!("{id} {}: the code {what}\nVIOLATION property={id} replay={note}", v["sub"].as_str().unwrap_or(""));
    std::process::exit(1);
}
