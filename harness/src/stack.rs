//! The lock-free stack: every schedule of a few threads, against the definition of linearizability.
use crate::sx::*;
use extended_collections::sync::Stack;
use std::sync::Arc;
use std::thread;

const MAXOP: usize = 24;
const PUSH: u8 = 1;
const POP: u8 = 2;
const LEN: u8 = 4;
const EMPTY: u8 = 5;
/// A pop that found nothing.
const NOTHING: u8 = 255;
/// A call: what, the value pushed or popped or the length, when it began and ended.
#[derive(Clone, Copy)]
struct Call { what: u8, id: u8, n: usize, from: u32, to: u32 }
/// Threads are only interrupted where the code under test or the stub yields, so plain statics do.
static mut CALLS: [Call; MAXOP] = [Call { what: 0, id: 0, n: 0, from: 0, to: 0 }; MAXOP];
static mut NCALLS: usize = 0;
static mut CLOCK: u32 = 0;
static mut NEXT: u8 = 0;
static mut PAYLOAD: [u8; 32] = [0; 32];
static mut LIVE: [i32; 32] = [0; 32];

pub trait Val: Send + Sync + 'static {
    fn make(id: u8, payload: u8) -> Self;
    fn id(&self) -> u8;
    fn payload(&self) -> u8;
}
impl Val for (u8, u8) {
    fn make(id: u8, payload: u8) -> Self { (id, payload) }
    fn id(&self) -> u8 { self.0 }
    fn payload(&self) -> u8 { self.1 }
}
/// A value that owns memory and counts its drops.
pub struct Owner { id: u8, payload: Box<u8> }
impl Val for Owner {
    fn make(id: u8, payload: u8) -> Self { unsafe { LIVE[id as usize] += 1 } Owner { id, payload: Box::new(payload) } }
    fn id(&self) -> u8 { self.id }
    fn payload(&self) -> u8 { *self.payload }
}
impl Drop for Owner {
    fn drop(&mut self) {
        unsafe {
            ck(*self.payload == PAYLOAD[self.id as usize], "a value is intact when it is dropped");
            LIVE[self.id as usize] -= 1;
            ck(LIVE[self.id as usize] == 0, "a value is dropped once");
        }
    }
}
fn begin(what: u8) -> usize {
    unsafe {
        let i = NCALLS;
        NCALLS += 1;
        CLOCK += 1;
        CALLS[i] = Call { what, id: 0, n: 0, from: CLOCK, to: u32::MAX };
        i
    }
}
fn ended(i: usize, id: u8, n: usize) {
    unsafe {
        CLOCK += 1;
        CALLS[i].id = id;
        CALLS[i].n = n;
        CALLS[i].to = CLOCK;
    }
}
fn push<V: Val>(s: &Stack<V>) {
    let id = unsafe { NEXT += 1; NEXT - 1 };
    let p = u8();
    unsafe { PAYLOAD[id as usize] = p }
    let v = V::make(id, p);
    let i = begin(PUSH);
    unsafe { CALLS[i].id = id }
    s.push(v);
    ended(i, id, 0);
}
fn pop<V: Val>(s: &Stack<V>) -> Option<V> {
    let i = begin(POP);
    let r = s.try_pop();
    let id = match &r { None => NOTHING, Some(v) => v.id() };
    ended(i, id, 0);
    if let Some(v) = &r {
        ck(id < unsafe { NEXT }, "a popped value was pushed");
        ck(v.payload() == unsafe { PAYLOAD[id as usize] }, "a popped value is intact");
    }
    r
}
/// One call: 1 push, 2 pop, 3 either, 4 length, 5 emptiness, 6 pop and drop at once, 7 any
fn call<V: Val>(s: &Stack<V>, what: usize, kept: &mut Vec<V>) {
    match what {
        1 => push(s),
        2 => kept.extend(pop(s)),
        3 => if choose(2) == 0 { push(s) } else { kept.extend(pop(s)) },
        4 => { let i = begin(LEN); let n = s.len(); ended(i, 0, n) }
        5 => { let i = begin(EMPTY); let e = s.is_empty(); ended(i, 0, e as usize) }
        6 => drop(pop(s)),
        _ => call(s, choose(4) + 1, kept),
    }
}
fn script<V: Val>(s: &Stack<V>, mut ops: usize, kept: &mut Vec<V>) {
    while ops > 0 {
        call(s, ops & 15, kept);
        ops >>= 4;
    }
}
/// Is there an order of the pushes and pops, respecting the order of calls that do not overlap, in which a stack gives these results?
fn linearizable(done: u32, st: &mut [u8; MAXOP], n: usize) -> bool {
    unsafe {
        let mut first = u32::MAX;
        let mut all = true;
        for i in 0..NCALLS {
            if done >> i & 1 == 0 && CALLS[i].what <= POP { all = false; first = first.min(CALLS[i].to) }
        }
        if all { return true; }
        for i in 0..NCALLS {
            let c = CALLS[i];
            if done >> i & 1 == 1 || c.what > POP || c.from > first { continue; }
            let d = done | 1 << i;
            if c.what == PUSH {
                let old = st[n];
                st[n] = c.id;
                if linearizable(d, st, n + 1) { return true; }
                st[n] = old;
            } else if c.id == NOTHING {
                if n == 0 && linearizable(d, st, 0) { return true; }
            } else if n > 0 && st[n - 1] == c.id && linearizable(d, st, n - 1) { return true; }
        }
        false
    }
}
/// The length a call reports lies between what is certainly and what is possibly on the stack.
fn lengths() {
    unsafe {
        for i in 0..NCALLS {
            let c = CALLS[i];
            if c.what != LEN && c.what != EMPTY { continue; }
            let (mut lo, mut hi) = (0i32, 0i32);
            for j in 0..NCALLS {
                let d = CALLS[j];
                if d.what == PUSH { lo += (d.to < c.from) as i32; hi += (d.from < c.to) as i32; }
                if d.what == POP && d.id != NOTHING { lo -= (d.from < c.to) as i32; hi -= (d.to < c.from) as i32; }
            }
            let lo = lo.max(0) as usize;
            if c.what == LEN { ck(c.n >= lo && c.n <= hi as usize, "the length lies between what is certainly and what is possibly on the stack") }
            else { ck(if c.n == 1 { lo == 0 } else { hi > 0 }, "emptiness agrees with what can be on the stack") }
        }
    }
}
/// 1: values own memory and count their drops; values pushed before; the calls of each thread, 4 bits each; preemptions;
/// end: 1 the stack is drained, 0 it is dropped as it is
#[no_mangle]
pub extern "C" fn h_stack(own: usize, pre: usize, a: usize, b: usize, c: usize, preempt: usize, drain: usize) {
    if own == 1 { go::<Owner>(pre, [a, b, c], preempt, drain) } else { go::<(u8, u8)>(pre, [a, b, c], preempt, drain) }
}
fn go<V: Val>(pre: usize, ops: [usize; 3], preempt: usize, drain: usize) {
    // whatever the first thread sets up for good
    thread::spawn(|| {}).join().unwrap();
    let live = heap_live();
    {
        let s = Arc::new(Stack::<V>::new());
        for _ in 0..pre { push(&s); }
        let mut kept: Vec<V> = Vec::new();
        threads(preempt);
        {
            let mut hs = [None, None];
            for i in 1..3 {
                if ops[i] != 0 {
                    let s = s.clone();
                    hs[i - 1] = Some(thread::spawn(move || {
                        let mut kept = Vec::new();
                        script(&s, ops[i], &mut kept);
                        drop(s);
                        kept
                    }));
                }
            }
            script(&s, ops[0], &mut kept);
            for h in &mut hs {
                if let Some(h) = h.take() {
                    match h.join() {
                        Ok(k) => kept.extend(k),
                        Err(_) => ck(false, "no operation of the stack panics"),
                    }
                }
            }
        }
        threads(0);
        lengths();
        let (mut pushed, mut popped) = (0, 0);
        unsafe {
            for i in 0..NCALLS {
                pushed += (CALLS[i].what == PUSH) as usize;
                popped += (CALLS[i].what == POP && CALLS[i].id != NOTHING) as usize;
            }
        }
        ck(popped <= pushed, "no value is popped twice");
        ck(s.len() == pushed - popped, "the length is the number of values on the stack");
        ck(s.is_empty() == (pushed == popped), "emptiness agrees with the length");
        for v in &kept { ck(v.payload() == unsafe { PAYLOAD[v.id() as usize] }, "a popped value stays intact"); }
        if drain == 1 {
            for _ in popped..pushed { kept.extend(pop(&s)); }
            ck(pop(&s).is_none(), "no value is on the stack twice");
            ck(kept.len() <= pushed, "no value is popped twice");
        }
        let mut order: u64 = 0;
        for v in &kept { order = order * 16 + v.id() as u64 + 1; }
        obs(order);
        let mut st = [0; MAXOP];
        ck(linearizable(0, &mut st, 0), "the calls have a sequential explanation");
        // the stack and the popped values go away in either order
        if choose(2) == 0 { drop(s); for v in &kept { ck(v.payload() == unsafe { PAYLOAD[v.id() as usize] }, "a popped value outlives the stack"); } drop(kept) } else { drop(kept); drop(s) }
    }
    unsafe { for i in 0..NEXT as usize { ck(LIVE[i] == 0, "every value has been dropped"); } }
    ck(heap_live() == live, "no memory is left behind");
    reach("end");
}
