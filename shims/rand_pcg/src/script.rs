//! Scripted random draws for the model checker.
//!
//! With no script installed every generator of this crate behaves exactly as in the original crate.  With a
//! script, the i-th draw is answered by letter `choices[i]` of an alphabet of `n + 1` values; beyond the end
//! of the script the letters (for whole runs of the tool: the values) follow a fixed well-mixed sequence (a fair tail).  Letter k < n is a 64-bit value v with
//!   v % m == k % m   for every m that divides 27720 (so all m <= 12) and for m = n, and
//!   v / 2^64 and (v mod 2^32) / 2^32 both just above k / n,
//! so that `% m`, and multiply-shift range reduction of either width, see it as choice k.
//! Letter n is u64::MAX.  A run that exceeds the horizon panics with [`HORIZON`].
use std::cell::RefCell;

/// Panic payload of a run that exceeded its draw horizon.
pub const HORIZON: &str = "MC-HORIZON";

/// State of a scripted run.
#[derive(Debug, Clone)]
pub struct Script {
    /// scripted letters
    pub choices: Vec<u32>,
    /// alphabet size (n + 1 letters)
    pub n: u32,
    /// maximum number of draws
    pub horizon: usize,
    /// letters used
    pub log: Vec<u32>,
    /// file to append the letters to (process-level runs)
    pub logfile: Option<String>,
}

thread_local! {
    static SCRIPT: RefCell<Option<Script>> = RefCell::new(None);
    static ENV_DONE: RefCell<bool> = RefCell::new(false);
}

/// Install a script for this thread.
pub fn install(choices: Vec<u32>, n: u32, horizon: usize) {
    ENV_DONE.with(|e| *e.borrow_mut() = true);
    SCRIPT.with(|s| *s.borrow_mut() = Some(Script { choices, n, horizon, log: vec![], logfile: None }));
}

/// Remove the script and return it with its log.
pub fn take() -> Option<Script> {
    SCRIPT.with(|s| s.borrow_mut().take())
}

/// The value of letter k in an alphabet with parameter n.
pub fn letter(k: u32, n: u32) -> u64 {
    if k >= n {
        return u64::MAX;
    }
    let base = ((k as u64) << 32) / (n as u64) + 1;
    // 32-bit half: smallest w >= base with w % m == k, where m is a multiple of 1..=12 and of n
    let mut g = (27720u64, n as u64);
    while g.1 > 0 {
        g = (g.1, g.0 % g.1);
    }
    let m = 27720 / g.0 * n as u64;
    let mut w = base - base % m + k as u64;
    if w < base {
        w += m;
    }
    if k == 0 {
        w = 0;
    }
    // the upper half does not change the remainders (2^32 is a multiple of 8)
    let step = if n <= 12 { 3465 } else { m };
    let mut h = base + (step - base % step) % step;
    if k == 0 {
        h = 0;
    }
    (h << 32) | w
}

fn mix(i: u64) -> u64 {
    let mut z = i.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn from_env() {
    let done = ENV_DONE.with(|e| std::mem::replace(&mut *e.borrow_mut(), true));
    if done {
        return;
    }
    if let Ok(text) = std::env::var("MC_RNG_SCRIPT") {
        // n:horizon:c0,c1,...
        let mut it = text.splitn(3, ':');
        let n = it.next().unwrap_or("6").parse().unwrap_or(6);
        let horizon = it.next().unwrap_or("5000").parse().unwrap_or(5000);
        let choices = it
            .next()
            .unwrap_or("")
            .split(',')
            .filter_map(|x| x.parse().ok())
            .collect();
        SCRIPT.with(|s| *s.borrow_mut() = Some(Script { choices, n, horizon, log: vec![], logfile: std::env::var("MC_RNG_LOG").ok() }));
    }
}

/// Answer a draw from the script, if one is installed.
pub fn draw() -> Option<u64> {
    from_env();
    let r = SCRIPT.with(|s| {
        let mut b = s.borrow_mut();
        let sc = b.as_mut()?;
        let i = sc.log.len();
        if i >= sc.horizon {
            return Some(Err(()));
        }
        let k = if i < sc.choices.len() {
            sc.choices[i]
        } else {
            (mix(i as u64) % (sc.n as u64 + 1)) as u32
        };
        let v = if i >= sc.choices.len() && sc.logfile.is_some() {
            // whole runs of the tool choose among more things than the alphabet has letters
            mix(i as u64)
        } else {
            letter(k, sc.n)
        };
        sc.log.push(k);
        if let Some(p) = &sc.logfile {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                let _ = write!(f, "{},", k);
            }
        }
        Some(Ok(v))
    })?;
    match r {
        Ok(v) => Some(v),
        Err(()) => panic!("{}", HORIZON),
    }
}
