//! Histories of a tracked state: mutation, replay, pausing, refusal.

use std::io;
use std::sync::{Arc, Mutex};

use steit::{
    de::{Deserialize, Reader},
    log::{LogEntry, Logger},
    rt::Runtime,
    ser::Serialize,
};

use crate::gen::*;
use crate::probe::*;
use crate::run::*;
use crate::val::*;

#[derive(Default)]
pub struct Tape {
    pub entries: Vec<Entry>,
    pub fail_in: Option<usize>,
}

#[derive(Clone, Default)]
pub struct Recorder(pub Arc<Mutex<Tape>>);

pub fn plain(e: &LogEntry) -> Entry {
    match e {
        LogEntry::Update { path, value, .. } => {
            Entry { kind: Kind::Update, path: path.clone(), payload: value.clone().into_raw(), key: 0 }
        }
        LogEntry::ListPush { path, item, .. } => {
            Entry { kind: Kind::Push, path: path.clone(), payload: item.clone().into_raw(), key: 0 }
        }
        LogEntry::ListPop { path, .. } => Entry { kind: Kind::Pop, path: path.clone(), payload: vec![], key: 0 },
        LogEntry::MapRemove { path, key, .. } => {
            Entry { kind: Kind::Remove, path: path.clone(), payload: vec![], key: *key }
        }
    }
}

impl Logger for Recorder {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        let mut t = self.0.lock().unwrap();
        match t.fail_in {
            Some(0) => return Err(io::Error::new(io::ErrorKind::Other, "refused")),
            Some(n) => t.fail_in = Some(n - 1),
            None => {}
        }
        t.entries.push(plain(&entry));
        Ok(())
    }
}

impl Recorder {
    pub fn take(&self) -> Vec<Entry> {
        std::mem::replace(&mut self.0.lock().unwrap().entries, vec![])
    }
}

fn u32_ty() -> Ty {
    Ty::U(32)
}
fn path_ty() -> Ty {
    Ty::Vec(u32_ty)
}
fn bytes_ty() -> Ty {
    Ty::Bytes
}

/// The documented schema of a log entry.
pub fn entry_ty() -> Ty {
    let f = |tag, ty| fld(tag, ty, "x");
    Ty::Enum(
        "LogEntry",
        vec![
            (0, vec![f(0, path_ty as TyFn), f(1, bytes_ty)]),
            (8, vec![f(0, path_ty), f(1, bytes_ty)]),
            (9, vec![f(0, path_ty)]),
            (12, vec![f(0, path_ty), f(1, u32_ty)]),
        ],
    )
}

pub fn entry_val(e: &Entry) -> Val {
    let p = Val::Seq(e.path.iter().map(|x| Val::U(*x as u64)).collect());
    match e.kind {
        Kind::Update => Val::Enum(0, vec![p, Val::Bytes(e.payload.clone())]),
        Kind::Push => Val::Enum(1, vec![p, Val::Bytes(e.payload.clone())]),
        Kind::Pop => Val::Enum(2, vec![p]),
        Kind::Remove => Val::Enum(3, vec![p, Val::U(e.key as u64)]),
    }
}

pub fn entry_bytes(e: &Entry) -> Vec<u8> {
    let t = entry_ty();
    framed(&t, enc(&t, &entry_val(e)))
}

pub fn has_map(ty: &Ty, depth: u32) -> bool {
    if depth == 0 {
        return true;
    }
    let d = depth - 1;
    match ty {
        Ty::HMap(..) | Ty::Map(..) => true,
        Ty::Vec(t) | Ty::List(t) | Ty::Opt(t) | Ty::Boxed(t) | Ty::Arr(_, t) => has_map(&t(), d),
        Ty::Tup(ts) => ts.iter().any(|t| has_map(&t(), d)),
        Ty::Struct(_, fs) => fs.iter().any(|f| has_map(&(f.ty)(), d)),
        Ty::Enum(_, es) => es.iter().any(|e| e.1.iter().any(|f| has_map(&(f.ty)(), d))),
        _ => false,
    }
}

/// Whether these are the bytes of that value, in any order of map entries.
pub fn bytes_are(ty: &Ty, v: &Val, got: &[u8]) -> Res {
    let want = enc(ty, v);
    if want == got {
        return Ok(());
    }
    if want.len() == got.len() && has_map(ty, 6) {
        if let Ok((w, rest)) = merge(ty, &default(ty), got) {
            if w == *v && rest.is_empty() {
                return Ok(());
            }
        }
    }
    Err(format!("value {:?} is encoded as {:?} instead of {:?}", v, got, want))
}

pub fn same_entries(exp: &[Exp], got: &[Entry]) -> Res {
    let show = |x: &[Entry]| format!("{:?}", x);
    if exp.len() != got.len() {
        return Err(format!(
            "{} entries expected, {} logged: {}; expected {:?}",
            exp.len(),
            got.len(),
            show(got),
            exp.iter().map(|e| (e.kind, e.path.clone())).collect::<Vec<_>>()
        ));
    }
    for (e, g) in exp.iter().zip(got) {
        if e.kind != g.kind || e.path != g.path || e.key != g.key {
            return Err(format!("expected {:?} at {:?} (key {}), logged {:?}", e.kind, e.path, e.key, g));
        }
        match &e.payload {
            Some((t, v)) => bytes_are(t, v, &g.payload).map_err(|s| format!("payload of {:?}: {}", g, s))?,
            None => {}
        }
    }
    Ok(())
}

pub fn start<T: SProbe>(cx: &mut Cx, rec: &Recorder) -> (T, Val) {
    let ty = T::ty();
    let rt = Runtime::with_logger(rec.clone());
    let v = if cx.r.chance(1, 4) { default(&ty) } else { gen(&ty, &mut cx.r, &mut 30) };
    let x = match cx.r.below(4) {
        0 => {
            // Detached value mounted afterwards.
            let mut x: T = detached(&v);
            x.set_runtime(rt);
            x
        }
        1 => {
            // Decoded.
            let mut x = T::with_runtime(rt);
            x.merge(&mut Reader::new(&*enc(&ty, &v))).expect("merge");
            x
        }
        2 => {
            // Replayed.
            let mut x = T::with_runtime(rt);
            let e = Entry { kind: Kind::Update, path: vec![], payload: enc(&ty, &v), key: 0 };
            x.replay(&mut Reader::new(&*entry_bytes(&e))).expect("replay");
            x
        }
        _ => T::build(&v, &rt),
    };
    (x, v)
}

fn steps(cx: &mut Cx) -> usize {
    if scale() == Scale::Long {
        // Long histories.
        100 + cx.r.below(100)
    } else if cx.thorough {
        1 + cx.r.below(40)
    } else {
        1 + cx.r.below(14)
    }
}

fn fed<'a>(cx: &mut Cx, bytes: &'a [u8]) -> Chunky<'a> {
    Chunky::new(bytes, &mut cx.r)
}

/// C11: log of a history replayed on an equal start.
pub fn c11<T: SProbe>(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    let (mut x, mut m) = start::<T>(cx, &rec);
    if !rec.take().is_empty() {
        return Err("building the state logged entries".into());
    }
    let ty = T::ty();
    // The replica: same content, other history.
    let rec2 = Recorder::default();
    let mut y: T = match cx.r.below(3) {
        0 => {
            let mut y = x.clone();
            y.set_runtime(Runtime::with_logger(rec2.clone()));
            y
        }
        1 => {
            let mut y = T::with_runtime(Runtime::with_logger(rec2.clone()));
            y.merge(&mut Reader::new(&*x.to_bytes())).map_err(|e| e.to_string())?;
            y
        }
        _ => T::build(&m, &Runtime::with_logger(rec2.clone())),
    };
    if y.val() != m {
        return Err(format!("replica starts as {:?}, not {:?}", y.val(), m));
    }
    let mut pending = vec![];
    let mut trace = vec![];
    for _ in 0..steps(cx) {
        let mut c = Ctx::new(crate::rng::Rng::new(&[cx.r.next()]));
        x.mutate(&mut c, &[], &mut m);
        trace.push(c.what.join(" "));
        let got = rec.take();
        if let Some(b) = c.bad {
            return Err(format!("{} after {:?}", b, trace));
        }
        same_entries(&c.log, &got).map_err(|s| format!("{}; history {:?}", s, trace))?;
        for e in &got {
            pending.push(entry_bytes(e));
        }
        m = x.val();
        // Replay what is pending now and then, in batches.
        if cx.r.chance(1, 4) {
            feed(cx, &mut y, &mut pending, &trace)?;
            if y.val() != m {
                return Err(format!("replica is {:?}, original {:?} after {:?}", y.val(), m, trace));
            }
        }
    }
    feed(cx, &mut y, &mut pending, &trace)?;
    cx.note(&enc(&ty, &m));
    if y.val() != m {
        return Err(format!("replica is {:?}, original {:?} after {:?}", y.val(), m, trace));
    }
    if !(x == y) {
        return Err(format!("replica does not equal the original after {:?}", trace));
    }
    Ok(())
}

fn feed<T: SProbe>(cx: &mut Cx, y: &mut T, pending: &mut Vec<Vec<u8>>, trace: &[String]) -> Res {
    while !pending.is_empty() {
        let n = 1 + cx.r.below(pending.len());
        let batch: Vec<u8> = pending.drain(..n).flatten().collect();
        let res = if cx.r.chance(1, 2) {
            y.replay(&mut Reader::new(&*batch))
        } else {
            let c = fed(cx, &batch);
            y.replay(&mut Reader::new(c))
        };
        res.map_err(|e| format!("replay refused with \"{}\" after {:?}", e, trace))?;
    }
    Ok(())
}

/// C13: where every part is mounted.
pub fn c13<T: SProbe>(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    // The state may itself be mounted below a root.
    let base: Vec<u32> = if cx.r.chance(1, 3) {
        (0..cx.r.below(3)).map(|_| cx.r.below(600) as u32).collect()
    } else {
        vec![]
    };
    let (mut x, mut m) = start::<T>(cx, &rec);
    let mut root = Runtime::with_logger(rec.clone());
    if T::LEAF {
        return Ok(());
    }
    if !base.is_empty() {
        for b in &base {
            root = root.nested(*b);
        }
        if cx.r.chance(1, 2) {
            x.set_runtime(root.clone());
        } else {
            let mut z = T::with_runtime(root.clone());
            z.merge(&mut Reader::new(&*enc(&T::ty(), &m))).map_err(|e| e.to_string())?;
            x = z;
        }
    }
    // What runtime() of the whole says about the logger.
    let logger = logger_of(x.runtime());
    let logger = if base.is_empty() { logger } else { logger_of(&root) };
    x.paths_ok(&base, logger).map_err(|e| format!("{} in the fresh {:?}", e, m))?;
    if base.is_empty() && !x.is_root() {
        return Err("a root says it is not".into());
    }
    let mut trace = vec![];
    for _ in 0..steps(cx) {
        match cx.r.below(8) {
            0 => {
                // Merge more.
                let v = gen(&T::ty(), &mut cx.r, &mut 15);
                let b = enc(&T::ty(), &v);
                trace.push(format!("merge {:?}", v));
                x.merge(&mut Reader::new(&*b)).map_err(|e| e.to_string())?;
            }
            1 | 2 if base.is_empty() => {
                let e = gen_entry(&T::ty(), &m, cx);
                if apply(&T::ty(), &m, &e.path, &e).is_ok() {
                    trace.push(format!("replay {:?}", e));
                    x.replay(&mut Reader::new(&*entry_bytes(&e))).map_err(|e| e.to_string())?;
                }
            }
            3 => {
                trace.push("clone".into());
                x = x.clone();
            }
            _ => {
                let mut c = Ctx::new(crate::rng::Rng::new(&[cx.r.next()]));
                x.mutate(&mut c, &base, &mut m);
                trace.push(c.what.join(" "));
            }
        }
        m = x.val();
        x.paths_ok(&base, logger).map_err(|e| format!("{} after {:?} on the way to {:?}", e, trace, x.val()))?;
    }
    cx.note(&enc(&T::ty(), &m));
    Ok(())
}

/// Paths of runtimes alone.
pub fn c13_runtime(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    let mut rt = Runtime::with_logger(rec);
    let mut p: Vec<u32> = vec![];
    let l = logger_of(&rt);
    for _ in 0..cx.r.below(12) {
        let n = cx.r.bits(32) as u32;
        let old = rt.clone();
        let oldp = p.clone();
        match cx.r.below(4) {
            0 | 1 => {
                rt = rt.nested(n);
                p.push(n);
            }
            2 if !p.is_empty() => {
                rt = rt.parent();
                p.pop();
            }
            3 if !p.is_empty() => {
                rt = rt.sibling(n);
                p.pop();
                p.push(n);
            }
            _ => {}
        }
        mounted(&old, &oldp, l, "the old runtime")?;
        mounted(&rt, &p, l, "runtime")?;
        if rt.is_root() != p.is_empty() || rt.is_child() == p.is_empty() || rt.get_field_number() != p.last().cloned() {
            return Err(format!("wrong facts about path {:?}", p));
        }
        if !p.is_empty() && rt.field_number() != *p.last().unwrap() {
            return Err(format!("wrong field number at {:?}", p));
        }
    }
    cx.note(format!("{:?}", p).as_bytes());
    Ok(())
}

/// A log entry for this state: mostly one that nearly fits.
pub fn gen_entry(ty: &Ty, v: &Val, cx: &mut Cx) -> Entry {
    let mut path = vec![];
    let mut t = ty.norm();
    let mut cur = v.clone();
    loop {
        if cx.r.chance(1, 5) {
            break;
        }
        let next: Option<(Vec<u32>, Ty, Val)> = match (&t, &cur) {
            (Ty::List(it), Val::Seq(vs)) if !vs.is_empty() => {
                let i = cx.r.below(vs.len());
                Some((vec![i as u32], it(), vs[i].clone()))
            }
            (Ty::Map(kt, it), Val::Map(ms)) => {
                let keys: Vec<u32> = ms.keys().cloned().collect();
                if keys.is_empty() || cx.r.chance(1, 4) {
                    let k = gen_key(*kt, &mut cx.r);
                    Some((vec![k], it(), ms.get(&k).cloned().unwrap_or_else(|| default(&it()))))
                } else {
                    let k = *cx.r.pick(&keys);
                    Some((vec![k], it(), ms[&k].clone()))
                }
            }
            (Ty::Struct(_, fs), Val::Struct(vs)) if !fs.is_empty() => {
                let i = cx.r.below(fs.len());
                Some((vec![fs[i].tag], (fs[i].ty)(), vs[i].clone()))
            }
            (Ty::Enum(_, es), Val::Enum(i, vs)) if !vs.is_empty() => {
                let k = cx.r.below(vs.len());
                let f = &es[*i].1[k];
                Some((vec![es[*i].0, f.tag], (f.ty)(), vs[k].clone()))
            }
            _ => None,
        };
        match next {
            Some((p, nt, nv)) => {
                path.extend(p);
                t = nt.norm();
                cur = nv;
            }
            None => break,
        }
    }
    // Damage.
    if cx.r.chance(1, 3) {
        match cx.r.below(4) {
            0 => {
                path.pop();
            }
            1 => path.push(cx.r.below(4) as u32),
            2 => path.push(cx.r.bits(32) as u32),
            _ => {
                if !path.is_empty() {
                    let i = cx.r.below(path.len());
                    path[i] = match cx.r.below(3) {
                        0 => path[i].wrapping_add(1),
                        1 => path[i].wrapping_sub(1),
                        _ => cx.r.bits(32) as u32,
                    };
                }
            }
        }
    }
    let (kind, pty, key) = match (&t, cx.r.below(5)) {
        (Ty::List(it), 0) | (Ty::List(it), 1) => (Kind::Push, it(), 0),
        (Ty::List(_), 2) => (Kind::Pop, t.clone(), 0),
        (Ty::Map(kt, _), 0) | (Ty::Map(kt, _), 1) => {
            let keys: Vec<u32> = match &cur {
                Val::Map(m) => m.keys().cloned().collect(),
                _ => vec![],
            };
            let k = if keys.is_empty() || cx.r.chance(1, 3) { gen_key(*kt, &mut cx.r) } else { *cx.r.pick(&keys) };
            (Kind::Remove, t.clone(), k)
        }
        (_, 4) if cx.r.chance(1, 2) => (*cx.r.pick(&[Kind::Push, Kind::Pop, Kind::Remove]), t.clone(), cx.r.below(4) as u32),
        _ => (Kind::Update, t.clone(), 0),
    };
    let payload = match kind {
        Kind::Update | Kind::Push => {
            let v = gen(&pty, &mut cx.r, &mut 12);
            enc(&pty, &v)
        }
        _ => vec![],
    };
    Entry { kind, path, payload, key }
}

/// C14: entries that fit, and entries that do not.
pub fn c14<T: SProbe>(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    let (mut x, mut m) = start::<T>(cx, &rec);
    let ty = T::ty();
    let mut trace = vec![];
    for _ in 0..steps(cx) {
        // A batch, with an entry in it that does not fit, or not.
        let mut es = vec![];
        let mut refused = None;
        // What the entries before it lead to.
        let mut z = x.clone();
        for _ in 0..1 + cx.r.below(3) {
            let w = z.val();
            let e = gen_entry(&ty, &w, cx);
            match apply(&ty, &w, &e.path, &e) {
                Ok(_) => {
                    if refused.is_none() && z.replay(&mut Reader::new(&*entry_bytes(&e))).is_err() {
                        // Refused for another reason: nothing is claimed.
                        return Ok(());
                    }
                }
                Err(Refused::Shape(s)) => {
                    if refused.is_none() {
                        refused = Some(s);
                    }
                }
                Err(_) => continue,
            }
            es.push(e);
        }
        let bytes: Vec<u8> = es.iter().flat_map(entry_bytes).collect();
        if cx.r.chance(1, 12) && refused.is_none() && !es.is_empty() {
            // Not a root.
            let mut y = x.clone();
            y.set_runtime(Runtime::with_logger(rec.clone()).nested(cx.r.below(9) as u32));
            let ok = calm(|| y.replay(&mut Reader::new(&*bytes)).is_ok())?;
            if ok {
                return Err("replay on a value which is not a root was accepted".into());
            }
            if y.val() != m {
                return Err("replay on a value which is not a root changed it".into());
            }
        }
        trace.push(format!("{:?}", es));
        let res = calm(|| x.replay(&mut Reader::new(&*bytes)))
            .map_err(|e| format!("{} while replaying {:?}", e, trace))?;
        if let Some(s) = &refused {
            if res.is_ok() {
                return Err(format!("accepted although {}: {:?}", s, trace));
            }
            cx.note(&bytes);
        }
        if x.val() != z.val() {
            return Err(format!("state is {:?} instead of {:?} after {:?} ({:?})", x.val(), z.val(), trace, refused));
        }
        m = x.val();
    }
    Ok(())
}

fn depth(rt: &Runtime) -> u32 {
    let d = rt.pause_logger() - 1;
    rt.unpause_logger();
    d
}

/// C12: nothing is logged when nothing may be.
pub fn c12<T: SProbe>(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    let rt = Runtime::with_logger(rec.clone());
    let ty = T::ty();
    let mut m = gen(&ty, &mut cx.r, &mut 25);
    let mut x: T = T::build(&m, &rt);
    x.set_runtime(rt.clone());
    let mut paused = 0u32;
    let mut trace = vec![];
    for _ in 0..2 * steps(cx) {
        match cx.r.below(12) {
            0 | 1 => {
                trace.push("pause".into());
                paused += 1;
                let d = rt.pause_logger();
                if d != paused {
                    return Err(format!("paused {} deep instead of {} after {:?}", d, paused, trace));
                }
            }
            2 | 3 | 4 => {
                trace.push("resume".into());
                paused = paused.saturating_sub(1);
                let d = rt.unpause_logger();
                if d != paused {
                    return Err(format!("paused {} deep instead of {} after {:?}", d, paused, trace));
                }
            }
            5 => {
                let v = gen(&ty, &mut cx.r, &mut 15);
                let b = enc(&ty, &v);
                trace.push(format!("merge {:?}", v));
                x.merge(&mut Reader::new(&*b)).map_err(|e| e.to_string())?;
                x.cache_size();
                let _ = x.to_bytes();
                let _: T = T::deserialize(&mut Reader::new(&*b)).map_err(|e| e.to_string())?;
                if !rec.take().is_empty() {
                    return Err(format!("entries logged by {:?}", trace));
                }
            }
            6 => {
                let e = gen_entry(&ty, &m, cx);
                let want = apply(&ty, &m, &e.path, &e);
                if let Err(Refused::Payload(_)) | Err(Refused::Unspecified) = want {
                    continue;
                }
                trace.push(format!("replay {:?}", e));
                let _ = x.replay(&mut Reader::new(&*entry_bytes(&e)));
                if !rec.take().is_empty() {
                    return Err(format!("entries logged by {:?}", trace));
                }
            }
            _ => {
                let mut c = Ctx::new(crate::rng::Rng::new(&[cx.r.next()]));
                let before = depth(&rt);
                x.mutate(&mut c, &[], &mut m);
                trace.push(c.what.join(" "));
                let got = rec.take();
                if paused > 0 && !got.is_empty() {
                    return Err(format!("logged {:?} while paused, after {:?}", got, trace));
                }
                if paused == 0 && got.len() != c.log.len() {
                    return Err(format!("{} entries logged, not {}, after {:?}", got.len(), c.log.len(), trace));
                }
                if depth(&rt) != before {
                    return Err(format!("pause depth changed from {} to {} after {:?}", before, depth(&rt), trace));
                }
            }
        }
        m = x.val();
        if depth(&rt) != paused {
            return Err(format!("paused {} deep instead of {} after {:?}", depth(&rt), paused, trace));
        }
    }
    cx.note(format!("{:?}", trace).as_bytes());
    Ok(())
}

/// C16: what does not happen is not logged; what is not logged does not happen.
pub fn c16<T: SProbe>(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    let (mut x, mut m) = start::<T>(cx, &rec);
    let mut trace = vec![];
    for _ in 0..steps(cx) {
        let seed = cx.r.next();
        let refuse = cx.r.chance(1, 3);
        let mut c = Ctx::new(crate::rng::Rng::new(&[seed]));
        if refuse {
            // The same mutation, refused.
            let before = m.clone();
            let mut y = x.clone();
            let mut m2 = m.clone();
            rec.0.lock().unwrap().fail_in = Some(0);
            let res = calm(|| y.mutate(&mut c, &[], &mut m2));
            rec.0.lock().unwrap().fail_in = None;
            let log = rec.take();
            if !log.is_empty() {
                return Err("the refused entry was logged".into());
            }
            if res.is_err() {
                if y.val() != before {
                    return Err(format!("{:?} was refused by the log, but changed {:?} to {:?}", c.what, before, y.val()));
                }
                cx.note(format!("{:?}", c.what).as_bytes());
            } else if y.val() != before {
                return Err(format!("{:?} changed {:?} to {:?} without asking the log", c.what, before, y.val()));
            }
            // The pause depth is claimed by C12 only.
        }
        let mut c = Ctx::new(crate::rng::Rng::new(&[seed]));
        let before = x.val();
        x.mutate(&mut c, &[], &mut m);
        trace.push(c.what.join(" "));
        let got = rec.take();
        if c.log.is_empty() && (!got.is_empty() || x.val() != before) {
            return Err(format!("{:?} is no mutation but logged {:?}", c.what, got));
        }
        if got.is_empty() && x.val() != before {
            return Err(format!("{:?} changed the state without logging", c.what));
        }
        if !got.is_empty() && c.log.is_empty() {
            return Err(format!("{:?} logged {:?}", c.what, got));
        }
        if got.len() != c.log.len() {
            return Err(format!("{} entries logged, not {}, after {:?}", got.len(), c.log.len(), trace));
        }
        m = x.val();
    }
    Ok(())
}
