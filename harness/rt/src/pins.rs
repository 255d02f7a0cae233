//! CppPin, CppUniquePtrPin, CppRef, CppMutRef, CppLtRef, CppMutLtRef.
use crate::objs::*;
use crate::Rng;
use autocxx::cxx::memory::UniquePtrTarget;
use autocxx::cxx::UniquePtr;
use autocxx::moveit::{Emplace, MakeCppStorage};
use autocxx::{AsCppMutRef, AsCppRef, CppMutRef, CppPin, CppRef, CppUniquePtrPin, WithinBox, WithinUniquePtr};
use autocxx::{CppLtRef, CppMutLtRef};

enum H<T> {
    C(CppRef<T>),
    M(CppMutRef<T>),
}
impl<T> Clone for H<T> {
    fn clone(&self) -> Self {
        match self {
            H::C(r) => H::C(*r),
            H::M(r) => H::M(*r),
        }
    }
}
struct Slot<P, T> {
    pin: P,
    id: u64,
    addr: usize,
    val: i64,
    handles: Vec<H<T>>,
}

fn mv<P>(p: P) -> P {
    let q = p;
    q
}
#[inline(never)]
fn through_arg<P>(p: P, f: impl FnOnce()) -> P {
    f();
    p
}

/// A read or write by "C++" through a handle taken earlier.
fn use_handle<T: Thing>(rng: &mut Rng, h: &mut H<T>, id: u64, addr: usize, val: &mut i64) -> Option<H<T>> {
    let nv = rng.val();
    let mut made = None;
    let (rp, wp): (*const T, *mut T) = match h {
        H::C(r) => match rng.below(6) {
            0 => (r.as_ptr(), r.const_cast().as_mut_ptr()),
            1 => (unsafe { r.as_ref() } as *const T, std::ptr::null_mut()),
            2 => {
                let l: CppLtRef<T> = CppLtRef::from_ptr(r.as_ptr());
                let l2 = l;
                made = Some(H::C(l2.lifetime_cast()));
                (l.as_ptr(), l.const_cast().as_mut_ptr())
            }
            3 => {
                made = Some(H::M(r.const_cast()));
                (r.as_ptr(), std::ptr::null_mut())
            }
            _ => (r.as_ptr(), std::ptr::null_mut()),
        },
        H::M(r) => match rng.below(8) {
            0 => {
                let c: CppRef<T> = (*r).into();
                made = Some(H::C(c));
                (c.as_ptr(), r.as_mut_ptr())
            }
            1 => {
                let c = r.as_cpp_ref();
                made = Some(H::C(c));
                (c.as_ptr(), r.as_mut_ptr())
            }
            2 => {
                let mut l: CppMutLtRef<T> = CppMutLtRef::from_ptr(r.as_mut_ptr());
                let m = l.lifetime_cast();
                made = Some(H::M(m));
                (m.as_ptr(), m.as_mut_ptr())
            }
            3 => (r.as_ptr(), unsafe { r.as_mut() } as *mut T),
            4 => {
                let c = *r;
                made = Some(H::C(CppRef::from_ptr(c.as_ptr())));
                (c.as_ptr(), c.as_mut_ptr())
            }
            _ => (r.as_ptr(), r.as_mut_ptr()),
        },
    };
    model(rp as usize == addr, "a reference points somewhere else");
    if !wp.is_null() && rng.below(3) != 0 {
        model(wp as usize == addr, "a mutable reference points somewhere else");
        T::set(wp, nv);
        *val = nv;
        count("writes");
    } else {
        model(T::id(rp) == id, "a reference shows another object");
        model(T::get(rp) == *val, "a reference shows another value");
        count("reads");
    }
    made
}

fn pin_op<T: Thing>(rng: &mut Rng, steps: usize) {
    let mut slots: Vec<Slot<CppPin<T>, T>> = Vec::new();
    for _ in 0..steps {
        let k = if slots.is_empty() { 0 } else { rng.below(14) };
        if k == 0 && slots.len() < 6 {
            let v = rng.val();
            let boxed = T::build(v).within_box();
            let pin = match rng.below(4) {
                0 => T::build(v).within_cpp_pin(),
                1 => CppPin::from_pinned_box(boxed),
                2 => CppPin::from_box(unsafe { std::pin::Pin::into_inner_unchecked(boxed) }),
                _ => CppPin::from_pinned_box(Box::emplace(T::build(v))),
            };
            let addr = pin.as_ptr() as usize;
            slots.push(Slot { id: T::id(pin.as_ptr()), pin, addr, val: v, handles: vec![] });
            count("made");
            continue;
        }
        if slots.is_empty() {
            continue;
        }
        let i = rng.below(slots.len());
        match k {
            1 | 2 => {
                // move the holder
                let mut s = slots.swap_remove(i);
                match rng.below(3) {
                    0 => s.pin = mv(s.pin),
                    1 => {
                        let b = Box::new(s.pin);
                        s.pin = *b;
                    }
                    _ => {
                        let hs = s.handles.clone();
                        let (id, addr, mut val) = (s.id, s.addr, s.val);
                        let r2 = &mut *rng;
                        s.pin = through_arg(s.pin, || {
                            for mut h in hs {
                                use_handle(r2, &mut h, id, addr, &mut val);
                            }
                        });
                        s.val = val;
                    }
                }
                slots.push(s);
                count("moved");
            }
            3 => {
                let s = &mut slots[i];
                s.handles.push(H::C(s.pin.as_cpp_ref()));
            }
            4 => {
                let s = &mut slots[i];
                let h = s.pin.as_cpp_mut_ref();
                s.handles.push(H::M(h));
            }
            5 => {
                let s = &mut slots[i];
                s.handles.push(if rng.below(2) == 0 { H::M(*s.pin) } else { H::C(CppRef::from_ptr(s.pin.as_ptr())) });
            }
            6 => {
                let s = &mut slots[i];
                s.handles.push(H::M(CppMutRef::from_ptr(s.pin.as_mut_ptr())));
            }
            7 => {
                let s = &mut slots[i];
                model(s.pin.as_ptr() as usize == s.addr && s.pin.as_mut_ptr() as usize == s.addr, "the pinned object has moved");
                let v = rng.val();
                if rng.below(2) == 0 {
                    let r: &T = unsafe { s.pin.as_ref() };
                    model(T::get(r) == s.val, "as_ref shows another value");
                } else {
                    let r: &mut T = unsafe { s.pin.as_mut() };
                    T::set(r, v);
                    s.val = v;
                }
            }
            8 => {
                // `DerefMut`: the reference inside can be used in place
                let s = &mut slots[i];
                let v = rng.val();
                let m: &mut CppMutRef<T> = &mut s.pin;
                T::set(m.as_mut_ptr(), v);
                s.val = v;
                if rng.below(4) == 0 {
                    // ... and replaced: the holder keeps its own object
                    let old = *m;
                    let mut other = 0u64;
                    *m = CppMutRef::from_ptr(&mut other as *mut u64 as *mut T);
                    model(s.pin.as_ptr() as usize == s.addr && s.pin.as_cpp_mut_ref().as_mut_ptr() as usize == s.addr, "the holder shows another object");
                    if rng.below(2) == 0 {
                        *s.pin = old;
                    } else {
                        let s = slots.swap_remove(i);
                        let id = s.id;
                        drop(s.pin);
                        model(!alive(id), "dropping the holder kept the object");
                    }
                }
            }
            9 if rng.below(3) == 0 => {
                let s = slots.swap_remove(i);
                let b: Box<T> = unsafe { s.pin.extract() };
                model(&*b as *const T as usize == s.addr, "extract moved the object");
                model(T::get(&*b) == s.val && T::id(&*b) == s.id, "extract gave another object");
                count("extracted");
                if rng.below(2) == 0 {
                    let pin = CppPin::from_box(b);
                    model(pin.as_ptr() as usize == s.addr, "from_box moved the object");
                    slots.push(Slot { pin, handles: vec![], ..s });
                }
            }
            10 if rng.below(3) == 0 => {
                let s = slots.swap_remove(i);
                let id = s.id;
                drop(s.pin);
                model(!alive(id), "dropping the holder kept the object");
                count("released");
            }
            _ => {
                let s = &mut slots[i];
                if !s.handles.is_empty() {
                    let j = rng.below(s.handles.len());
                    let made = use_handle(rng, &mut s.handles[j], s.id, s.addr, &mut s.val);
                    if s.handles.len() > 8 {
                        s.handles.swap_remove(0);
                    }
                    s.handles.extend(made);
                }
            }
        }
        for s in &slots {
            model(alive(s.id), "an object was destroyed while held");
        }
        model(n_alive() == slots.len(), "an object was not destroyed with its holder");
    }
}

pub fn run_pin(rng: &mut Rng, steps: usize) {
    match rng.below(3) {
        0 => pin_op::<Opaque>(rng, steps),
        1 => pin_op::<Pod>(rng, steps),
        _ => pin_op::<Wide>(rng, steps),
    }
    // by value
    let p = CppPin::new(Pod::make(5));
    let c = p.as_cpp_ref();
    let p = mv(p);
    model(Pod::get(c.as_ptr()) == 5, "CppPin::new");
    drop(p);
    let u = CppPin::new(());
    let _ = u.as_ptr();
    drop(mv(u));
    // a panic while holders are live
    let before = n_alive();
    let r = quiet(|| {
        let _a = CppPin::new(Pod::make(1));
        let _b = Opaque::build(2).within_cpp_pin();
        arm(1);
        let _c = Opaque::build(3).within_cpp_pin();
    });
    model(r.is_err() && n_alive() == before, "a panic lost or repeated a destruction");
}

fn uptr_op<T: Thing + UniquePtrTarget + MakeCppStorage>(rng: &mut Rng, steps: usize) {
    let mut slots: Vec<Slot<CppUniquePtrPin<T>, T>> = Vec::new();
    for _ in 0..steps {
        let k = if slots.is_empty() { 0 } else { rng.below(12) };
        if k == 0 && slots.len() < 6 {
            let v = rng.val();
            let u: UniquePtr<T> = if rng.below(2) == 0 { T::build(v).within_unique_ptr() } else { UniquePtr::emplace(T::build(v)) };
            let addr = u.as_ptr() as usize;
            let mut handles = vec![];
            if rng.below(2) == 0 {
                handles.push(H::C(u.as_cpp_ref()));
            }
            let pin = CppUniquePtrPin::new(u);
            slots.push(Slot { id: T::id(pin.as_ptr()), pin, addr, val: v, handles });
            count("made");
            continue;
        }
        if slots.is_empty() {
            continue;
        }
        let i = rng.below(slots.len());
        match k {
            1 | 2 => {
                let mut s = slots.swap_remove(i);
                s.pin = mv(s.pin);
                if rng.below(2) == 0 {
                    let b = Box::new(s.pin);
                    s.pin = *b;
                }
                slots.push(s);
                count("moved");
            }
            3 => {
                let s = &mut slots[i];
                s.handles.push(H::C(s.pin.as_cpp_ref()));
            }
            4 => {
                let s = &mut slots[i];
                let h = s.pin.as_cpp_mut_ref();
                s.handles.push(H::M(h));
            }
            5 => {
                let s = &mut slots[i];
                s.handles.push(H::M(*s.pin));
            }
            6 => {
                let s = &mut slots[i];
                model(s.pin.as_ptr() as usize == s.addr, "the pinned object has moved");
                model(T::get(s.pin.as_ptr()) == s.val, "as_ptr shows another value");
            }
            7 if rng.below(3) == 0 => {
                let s = slots.swap_remove(i);
                let id = s.id;
                drop(s.pin);
                model(!alive(id), "dropping the holder kept the object");
                count("released");
            }
            _ => {
                let s = &mut slots[i];
                if !s.handles.is_empty() {
                    let j = rng.below(s.handles.len());
                    let made = use_handle(rng, &mut s.handles[j], s.id, s.addr, &mut s.val);
                    if s.handles.len() > 8 {
                        s.handles.swap_remove(0);
                    }
                    s.handles.extend(made);
                }
            }
        }
        model(n_alive() == slots.len(), "an object was not destroyed with its holder, or was destroyed early");
    }
}

pub fn run_uptrpin(rng: &mut Rng, steps: usize) {
    match rng.below(3) {
        0 => uptr_op::<Opaque>(rng, steps),
        1 => uptr_op::<Pod>(rng, steps),
        _ => uptr_op::<Wide>(rng, steps),
    }
    set_expect(true);
    let null = CppUniquePtrPin::<Opaque>::new(UniquePtr::null());
    model(quiet(|| null.as_ptr()).is_err(), "a null UniquePtr gave a reference");
    model(quiet(|| null.as_cpp_ref().as_ptr()).is_err(), "a null UniquePtr gave a reference");
    drop(null);
    set_expect(false);
    count("nulls");
}

trait Shape {
    fn area(&self) -> i64;
    fn grow(&mut self, by: i64);
}
struct Sq(Pod, i64);
struct Li(Wide);
impl Shape for Sq {
    fn area(&self) -> i64 {
        self.0.val + self.1
    }
    fn grow(&mut self, by: i64) {
        self.1 += by
    }
}
impl Shape for Li {
    fn area(&self) -> i64 {
        self.0.val
    }
    fn grow(&mut self, by: i64) {
        self.0.val += by
    }
}

pub fn run_dyn(rng: &mut Rng, steps: usize) {
    for _ in 0..steps {
        let base = rng.below(1000) as i64;
        let mut p: CppPin<dyn Shape> = CppPin::from_box(if rng.below(2) == 0 {
            Box::new(Sq(Pod::make(base), 0)) as Box<dyn Shape>
        } else {
            Box::new(Li(Wide::make(base)))
        });
        let mut want = base;
        let mut hs = vec![*p, *p];
        for _ in 0..6 {
            let n = rng.below(50) as i64;
            match rng.below(5) {
                0 => p = mv(p),
                1 => hs.push(p.as_cpp_mut_ref()),
                2 => {
                    unsafe { p.as_mut() }.grow(n);
                    want += n;
                }
                3 => {
                    let j = rng.below(hs.len());
                    unsafe { hs[j].as_mut() }.grow(n);
                    want += n;
                }
                _ => {
                    let c = p.as_cpp_ref();
                    model(unsafe { c.as_ref() }.area() == want, "dyn value");
                    model(unsafe { p.as_ref() }.area() == want, "dyn value");
                }
            }
            count("dynops");
        }
        if rng.below(3) == 0 {
            let b = unsafe { p.extract() };
            model(b.area() == want, "dyn extract");
        } else {
            drop(p);
        }
        let v: Vec<i64> = (0..rng.below(5) as i64).collect();
        let n = v.len();
        let s: CppPin<[i64]> = CppPin::from_box(v.into_boxed_slice());
        let r = s.as_cpp_ref();
        let s = mv(s);
        model(unsafe { r.as_ref() }.len() == n, "slice length");
        drop(s);
        model(n_alive() == 0, "objects left");
    }
}
