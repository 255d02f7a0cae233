//! Rust subclasses: who owns whom, with a stand-in for the generated C++ peer class.
use crate::objs::{self, alive, count, model, n_alive, quiet, register, unregister, Planned};
use crate::Rng;
use autocxx::cxx::memory::UniquePtrTarget;
use autocxx::cxx::UniquePtr;
use autocxx::subclass::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::c_void;
use std::fmt;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::rc::{Rc, Weak};

type Holder = CppSubclassRustPeerHolder<Sub>;

/// The generated C++ class, as Rust sees it: opaque, without size.
#[repr(C)]
pub struct Peer {
    _private: [u8; 0],
    _pin: std::marker::PhantomData<(*mut u8, std::marker::PhantomPinned)>,
}
/// The C++ object itself: holds the Rust peer in a box, forwards virtual calls.
pub struct Imp {
    id: u64,
    obs: Option<Box<Holder>>,
    cpp_state: i64,
}
thread_local! {
    static IMPS: RefCell<HashMap<usize, *mut Imp>> = RefCell::new(HashMap::new());
}
/// What C++ does with a reference it is given.
fn imp(p: *const Peer) -> *mut Imp {
    match IMPS.with(|m| m.borrow().get(&(p as usize)).copied()) {
        Some(i) => i,
        None => {
            println!("MODEL C++ is called on an object which does not exist");
            std::process::exit(3)
        }
    }
}
fn build_peer(holder: Holder) -> UniquePtr<Peer> {
    objs::storage(1);
    let b = Box::into_raw(Box::new(Imp { id: 0, obs: Some(Box::new(holder)), cpp_state: 100 }));
    unsafe { (*b).id = register(b as usize) };
    IMPS.with(|m| m.borrow_mut().insert(b as usize, b));
    unsafe { UniquePtr::from_raw(b as *mut Peer) }
}
unsafe impl UniquePtrTarget for Peer {
    fn __typename(f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Peer")
    }
    fn __null() -> MaybeUninit<*mut c_void> {
        MaybeUninit::new(std::ptr::null_mut())
    }
    unsafe fn __raw(raw: *mut Self) -> MaybeUninit<*mut c_void> {
        MaybeUninit::new(raw as *mut c_void)
    }
    unsafe fn __get(repr: MaybeUninit<*mut c_void>) -> *const Self {
        repr.assume_init() as *const Self
    }
    unsafe fn __release(repr: MaybeUninit<*mut c_void>) -> *mut Self {
        repr.assume_init() as *mut Self
    }
    unsafe fn __drop(repr: MaybeUninit<*mut c_void>) {
        let p = repr.assume_init() as *mut Peer;
        if p.is_null() {
            return;
        }
        // ~SubCpp
        let i = imp(p);
        unregister((*i).id, p as usize);
        let obs = (*i).obs.take();
        drop(obs);
        IMPS.with(|m| m.borrow_mut().remove(&(p as usize)));
        drop(Box::from_raw(i));
        objs::storage(-1);
    }
}
impl Peer {
    fn cpp_state(&self) -> i64 {
        unsafe { (*imp(self)).cpp_state }
    }
    fn bump(self: Pin<&mut Self>) {
        unsafe { (*imp(&*self)).cpp_state += 1 }
    }
    fn rust_half(&self) -> Option<Rc<RefCell<Sub>>> {
        let i = imp(self);
        unsafe { (*i).obs.as_ref() }.and_then(|h| h.get())
    }
    /// A virtual call from C++: to the Rust override if its object is still there.
    fn call(&self, n: i64) -> Option<i64> {
        let rc = self.rust_half()?;
        let r = rc.as_ref().borrow().method(n);
        Some(r)
    }
    fn call_mut(&self, n: i64) -> Option<i64> {
        let rc = self.rust_half()?;
        let r = rc.as_ref().borrow_mut().method_mut(n);
        Some(r)
    }
}
impl CppSubclassCppPeer for Peer {
    fn relinquish_ownership(&self) {
        let i = imp(self);
        let old = unsafe { (*i).obs.take() }.unwrap();
        let new = Box::new((*old).relinquish_ownership());
        unsafe { (*i).obs = Some(new) };
    }
}

pub struct Sub {
    id: u64,
    state: i64,
    cpp_peer: CppSubclassCppPeerHolder<Peer>,
    mode: u8,
}
impl Sub {
    fn new(state: i64, mode: u8) -> Sub {
        Sub { id: register(0), state, cpp_peer: Default::default(), mode }
    }
    fn method(&self, n: i64) -> i64 {
        // calls the superclass
        self.peer().cpp_state() + self.state + n
    }
    fn method_mut(&mut self, n: i64) -> i64 {
        self.state += n;
        let s = self.state;
        let p: Pin<&mut Peer> = self.peer_mut();
        p.bump();
        s
    }
}
impl Default for Sub {
    fn default() -> Self {
        Sub::new(11, 0)
    }
}
impl Drop for Sub {
    fn drop(&mut self) {
        unregister(self.id, 0);
    }
}
impl CppPeerConstructor<Peer> for Sub {
    fn make_peer(&mut self, peer_holder: Holder) -> UniquePtr<Peer> {
        match self.mode {
            1 => std::panic::panic_any(Planned),
            2 => {
                // a C++ constructor which calls a virtual function
                if let Some(rc) = peer_holder.get() {
                    model(rc.try_borrow().is_err(), "the object under construction can be borrowed");
                }
            }
            _ => {}
        }
        let u = build_peer(peer_holder);
        if self.mode == 3 {
            drop(u); // the C++ object goes away again, e.g. a factory which fails
            std::panic::panic_any(Planned);
        }
        u
    }
}
impl CppSubclass<Peer> for Sub {
    fn peer_holder(&self) -> &CppSubclassCppPeerHolder<Peer> {
        &self.cpp_peer
    }
    fn peer_holder_mut(&mut self) -> &mut CppSubclassCppPeerHolder<Peer> {
        &mut self.cpp_peer
    }
}
impl CppSubclassSelfOwned<Peer> for Sub {}

enum Own {
    Cpp(UniquePtr<Peer>),
    Rust(Vec<Rc<RefCell<Sub>>>, Vec<Weak<RefCell<Sub>>>),
    SelfOwned(Vec<Rc<RefCell<Sub>>>, *const Peer, bool), // deleted?
}
struct S {
    own: Own,
    sub: u64,
    peer: u64,
    state: i64,
    cpp: i64,
}

fn ids(peer: &Peer) -> (u64, u64) {
    let rc = peer.rust_half().expect("live Rust half");
    let s = rc.borrow().id;
    (s, unsafe { (*imp(peer)).id })
}

impl S {
    fn peer_ptr(&self) -> *const Peer {
        match &self.own {
            Own::Cpp(u) => u.as_ptr(),
            Own::Rust(v, _) => v[0].borrow().peer() as *const Peer,
            Own::SelfOwned(_, p, _) => *p,
        }
    }
    /// Both halves are alive and reach each other.
    fn check(&self) {
        model(alive(self.sub) && alive(self.peer), "one half of a subclass is gone");
        let p = unsafe { &*self.peer_ptr() };
        model(ids(p) == (self.sub, self.peer), "the halves of a subclass are mixed up");
        model(p.call(3) == Some(self.cpp + self.state + 3), "a virtual call gave another value");
    }
}

pub fn run(rng: &mut Rng, steps: usize) {
    let mut all: Vec<S> = Vec::new();
    for _ in 0..steps {
        let k = if all.is_empty() { 0 } else { rng.below(12) };
        if k <= 1 && all.len() < 6 {
            let state = rng.below(1000) as i64;
            let dflt = rng.below(4) == 0;
            let kind = rng.below(3);
            let mode = [0, 0, 0, 1, 2, 3][rng.below(6)];
            let mk = || Sub::new(state, mode);
            let before = (n_alive(), objs::n_storage());
            let st = if dflt { 11 } else { state };
            let own = quiet(|| match (kind, dflt) {
                (0, false) => Own::Cpp(Sub::new_cpp_owned(mk())),
                (0, true) => Own::Cpp(Sub::default_cpp_owned()),
                (1, false) => Own::Rust(vec![Sub::new_rust_owned(mk())], vec![]),
                (1, true) => Own::Rust(vec![Sub::default_rust_owned()], vec![]),
                (_, d) => {
                    let rc = if d { Sub::default_self_owned() } else { Sub::new_self_owned(mk()) };
                    let p = rc.borrow().peer() as *const Peer;
                    Own::SelfOwned(vec![rc], p, false)
                }
            });
            match own {
                Err(()) => {
                    count("failed_ctor");
                    model(!dflt && (mode == 1 || mode == 3), "construction failed");
                    model((n_alive(), objs::n_storage()) == before, "a failed construction left a half behind");
                }
                Ok(own) => {
                    model(dflt || (mode != 1 && mode != 3), "a failing constructor went unnoticed");
                    let mut s = S { own, sub: 0, peer: 0, state: st, cpp: 100 };
                    (s.sub, s.peer) = ids(unsafe { &*s.peer_ptr() });
                    s.check();
                    all.push(s);
                    count("made");
                }
            }
            continue;
        }
        let i = rng.below(all.len());
        let s = &mut all[i];
        match k {
            2 | 3 => {
                let n = rng.below(9) as i64;
                let r = unsafe { &*s.peer_ptr() }.call_mut(n);
                s.state += n;
                s.cpp += 1;
                model(r == Some(s.state), "a mutable virtual call gave another value");
                count("calls");
            }
            4 => match &mut s.own {
                Own::Rust(v, w) => {
                    w.push(Rc::downgrade(&v[0]));
                    let c = v[0].clone();
                    v.push(c);
                }
                Own::SelfOwned(v, _, false) if !v.is_empty() => {
                    let c = v[0].clone();
                    v.push(c);
                }
                _ => {}
            },
            5 => {
                // Rust code lets go of one reference
                match &mut s.own {
                    Own::Rust(v, _) if v.len() > 1 => {
                        v.pop();
                    }
                    Own::SelfOwned(v, _, false) => {
                        v.pop();
                    }
                    _ => {}
                }
            }
            6 => {
                // re-entrant: Rust holds a shared borrow while C++ calls a const virtual
                if let Own::Rust(v, _) = &s.own {
                    let b = v[0].borrow();
                    let got = b.peer().call(1);
                    model(got == Some(s.cpp + s.state + 1), "a re-entrant call gave another value");
                    let r = quiet_any(|| b.peer().call_mut(1));
                    model(r.is_err(), "a second mutable borrow was handed out");
                    count("reentrant");
                }
            }
            7 => {
                // the object deletes itself
                if let Own::SelfOwned(v, p, _) = &mut s.own {
                    let rc = if let Some(r) = v.first() {
                        r.clone()
                    } else {
                        unsafe { &**p }.rust_half().unwrap()
                    };
                    rc.borrow().delete_self();
                    let (sub, peer) = (s.sub, s.peer);
                    model(alive(sub) && alive(peer), "an object was destroyed while in use");
                    if rng.below(2) == 0 {
                        rc.borrow().delete_self(); // asking twice changes nothing
                    }
                    drop(rc);
                    v.clear();
                    model(!alive(sub) && !alive(peer), "delete_self kept a half");
                    all.swap_remove(i);
                    count("deleted_self");
                    continue;
                }
            }
            8 | 9 if rng.below(2) == 0 => {
                let s = all.swap_remove(i);
                match s.own {
                    Own::Cpp(u) => {
                        // C++ may pass it on before destroying it
                        let raw = u.into_raw();
                        let u = unsafe { UniquePtr::from_raw(raw) };
                        drop(u);
                        model(!alive(s.sub) && !alive(s.peer), "the C++ owner kept a half");
                        count("cpp_dropped");
                    }
                    Own::Rust(v, w) => {
                        drop(v);
                        model(!alive(s.sub) && !alive(s.peer), "the Rust owner kept a half");
                        model(w.iter().all(|w| w.upgrade().is_none()), "a weak reference came back");
                        count("rust_dropped");
                    }
                    own @ Own::SelfOwned(..) => all.push(S { own, ..s }),
                }
                continue;
            }
            _ => {}
        }
        if !all.is_empty() {
            let full = rng.below(8) == 0;
            let j = rng.below(all.len());
            for (n, s) in all.iter().enumerate() {
                if full || n == j {
                    s.check();
                }
            }
        }
        model(n_alive() == 2 * all.len(), "a half of a subclass outlived the other");
    }
    for s in all {
        if let Own::SelfOwned(v, p, _) = s.own {
            let rc = unsafe { &*p }.rust_half().unwrap();
            drop(v);
            rc.borrow().delete_self();
        }
    }
}

fn quiet_any<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    objs::set_expect(true);
    let r = quiet(f);
    objs::set_expect(false);
    r
}
