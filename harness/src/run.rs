//! Running cases: each is a function of (property, family, index, seed).

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

use crate::gen::{set_scale, Scale};
use crate::rng::Rng;

pub type Res = Result<(), String>;

pub struct Cx {
    pub r: Rng,
    pub thorough: bool,
    pub distinct: HashSet<u64>,
    pub sample: Option<String>,
    /// (index, count) of this process.
    pub shard: (u64, u64),
}

impl Cx {
    /// Marks the case as one that exercised the property on this input.
    pub fn note(&mut self, x: &[u8]) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        let r = self.r.clone().next();
        let _ = r;
        self.distinct.insert(h.finish());
        if self.sample.is_none() && !x.is_empty() && x.len() < 200 {
            self.sample = Some(format!("{:?}", x));
        }
    }
}

#[derive(Clone)]
pub struct Fam {
    pub name: String,
    pub run: fn(&mut Cx) -> Res,
    /// Run once only (an enumeration).
    pub once: bool,
}

pub fn fam(name: &str, run: fn(&mut Cx) -> Res) -> Fam {
    Fam { name: name.replace(' ', ""), run, once: false }
}

pub fn once(name: &str, run: fn(&mut Cx) -> Res) -> Fam {
    Fam { name: name.to_string(), run, once: true }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Runs something that must not panic.
pub fn calm<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", LAST_PANIC.lock().unwrap()))
}

// Memory: requests larger than a limit are recorded.

pub struct Watch;

pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static OVER: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        watch(l.size());
        if l.size() > 1 << 31 {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        watch(l.size());
        if l.size() > 1 << 31 {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        watch(n);
        if n > 1 << 31 {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn watch(n: usize) {
    if n > LIMIT.load(SeqCst) {
        OVER.fetch_max(n, SeqCst);
    }
}

/// Runs a decoding of `len` bytes; fails when it panics or asks for far more memory than that.
pub fn frugal<T>(len: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    OVER.store(0, SeqCst);
    LIMIT.store(65536 + 8192 * len, SeqCst);
    let r = calm(f);
    LIMIT.store(usize::MAX, SeqCst);
    let over = OVER.load(SeqCst);
    if over > 0 {
        return Err(format!("requested {} bytes of memory at once to decode {} bytes", over, len));
    }
    r
}

// Readers and writers with all the behaviours their traits allow.

/// Hands out its bytes in small pieces, interrupting now and then.
pub struct Chunky<'a> {
    pub s: &'a [u8],
    pub r: Rng,
    pub fail_at: Option<usize>,
}

impl<'a> Chunky<'a> {
    pub fn new(s: &'a [u8], r: &mut Rng) -> Self {
        Chunky { s, r: Rng::new(&[r.next()]), fail_at: None }
    }
}

impl<'a> Read for Chunky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.r.chance(1, 6) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        if let Some(n) = self.fail_at {
            if n == 0 {
                return Err(io::Error::new(io::ErrorKind::Other, "broken"));
            }
            self.fail_at = Some(n - 1);
        }
        if buf.is_empty() || self.s.is_empty() {
            return Ok(0);
        }
        let n = (1 + self.r.below(4)).min(buf.len()).min(self.s.len());
        buf[..n].copy_from_slice(&self.s[..n]);
        self.s = &self.s[n..];
        Ok(n)
    }
}

/// Accepts a few bytes at a time.
pub struct Dribble(pub Vec<u8>, pub Rng);

impl Write for Dribble {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.1.chance(1, 6) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let n = (1 + self.1.below(3)).min(buf.len());
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// The runner.

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub count: u64,
    pub secs: u64,
    pub out: String,
    pub progress: String,
    pub shard: (u64, u64),
    pub case: Option<(String, u64)>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static STARTED: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);

pub fn run(o: &Opts, fams: Vec<Fam>) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = LAST_PANIC.lock() {
            *p = m + &at;
        }
    }));

    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        // A case takes milliseconds; an enumeration much less than this.
        std::thread::sleep(Duration::from_secs(1));
        let s = STARTED.load(SeqCst);
        if !DONE.load(SeqCst) && s > 0 && t0.elapsed().as_secs() > s + 120 {
            std::process::exit(9);
        }
    });

    let mut cx = Cx {
        r: Rng::new(&[0]),
        thorough: o.thorough,
        distinct: HashSet::new(),
        sample: None,
        shard: o.shard,
    };
    let mut evals = 0u64;
    let mut failed: Option<(String, u64, String)> = None;
    let mut samples = vec![];
    let mut per: Vec<u64> = vec![0; fams.len()];
    let mut progress = std::fs::File::create(&o.progress).unwrap();

    let todo: Vec<usize> = (0..fams.len())
        .filter(|i| match &o.case {
            Some((f, _)) => *f == fams[*i].name,
            None => true,
        })
        .collect();
    if todo.is_empty() {
        eprintln!("no such family");
        return 2;
    }

    let mut round = 0u64;
    'all: loop {
        let mut any = false;
        for &i in &todo {
            let f = &fams[i];
            let index = match &o.case {
                Some((_, n)) => *n,
                None => round * o.shard.1 + o.shard.0,
            };
            if f.once && round > 0 {
                continue;
            }
            any = any || !f.once;
            if o.case.is_none() && t0.elapsed().as_secs() >= o.secs {
                break 'all;
            }
            cx.r = Rng::new(&[hash_str(&o.prop), hash_str(&f.name), index, o.seed]);
            {
                use std::io::Seek;
                let line = format!("{:<150}\n", format!("{}:{}", f.name, index));
                let _ = progress.seek(std::io::SeekFrom::Start(0));
                let _ = progress.write_all(line.as_bytes());
            }
            // One case in eight is large in some way.
            set_scale(match Rng::new(&[hash_str(&f.name), index, 7]).below(24) {
                0 => Scale::Blobs,
                1 => Scale::Many,
                2 => Scale::Long,
                _ => Scale::Small,
            });
            STARTED.store(1 + t0.elapsed().as_secs(), SeqCst);
            let d0 = cx.distinct.len();
            cx.sample = None;
            let res = calm(|| (f.run)(&mut cx)).and_then(|x| x);
            evals += 1;
            per[i] += 1;
            if cx.distinct.len() > d0 && samples.len() < 12 && round < 2 {
                if let Some(s) = cx.sample.take() {
                    samples.push(format!("{}:{} {}", f.name, index, s));
                }
            }
            if let Err(e) = res {
                failed = Some((f.name.clone(), index, e));
                break 'all;
            }
        }
        round += 1;
        if o.case.is_some() || !any || evals >= o.count {
            break;
        }
    }
    DONE.store(true, SeqCst);

    let mut out = String::from("{");
    out += &format!("\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"families\":{},\"rounds\":{},\"secs\":{:.1},",
        jstr(&o.prop), o.seed, evals, cx.distinct.len(), fams.len(), round, t0.elapsed().as_secs_f64());
    out += "\"samples\":[";
    out += &samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    out += "],\"failure\":";
    match &failed {
        None => out += "null",
        Some((f, n, e)) => {
            out += &format!("{{\"family\":{},\"index\":{},\"what\":{}}}", jstr(f), n, jstr(e))
        }
    }
    out += "}\n";
    std::fs::write(&o.out, out).unwrap();
    if failed.is_some() {
        1
    } else {
        0
    }
}
