//! ValueParamHandler and RValueParamHandler driven as generated code drives them.
use crate::objs::*;
use crate::Rng;
use autocxx::cxx::memory::UniquePtrTarget;
use autocxx::cxx::UniquePtr;
use autocxx::moveit::{moveit, new, CopyNew, MakeCppStorage, MoveNew, New};
use autocxx::{as_copy, as_mov, as_new, RValueParam, RValueParamHandler, ValueParam, ValueParamHandler};
use autocxx::{WithinBox, WithinUniquePtr};
use std::pin::Pin;

/// What the generated Rust function does.
fn call<T: Thing, P: ValueParam<T>>(p: P) -> i64 {
    let mut space0 = ValueParamHandler::default();
    let mut space0 = unsafe { Pin::new_unchecked(&mut space0) };
    unsafe {
        space0.as_mut().populate(p);
        T::consume(space0.get_ptr())
    }
}
fn call2<T: Thing, U: Thing, P: ValueParam<T>, Q: ValueParam<U>>(p: P, q: Q) -> (i64, i64) {
    let mut space0 = ValueParamHandler::default();
    let mut space0 = unsafe { Pin::new_unchecked(&mut space0) };
    let mut space1 = ValueParamHandler::default();
    let mut space1 = unsafe { Pin::new_unchecked(&mut space1) };
    unsafe {
        space0.as_mut().populate(p);
        space1.as_mut().populate(q);
        let a = space0.as_mut().get_ptr();
        let b = space1.as_mut().get_ptr();
        let r = (T::get(a), U::get(b));
        (T::consume(a), U::consume(b)).min(r)
    }
}
fn rcall<T: Thing, P: RValueParam<T>>(p: P) -> i64 {
    let mut space0 = RValueParamHandler::default();
    let mut space0 = unsafe { Pin::new_unchecked(&mut space0) };
    unsafe {
        space0.as_mut().populate(p);
        T::consume(space0.get_ptr())
    }
}

fn value_op<T: Thing + CopyNew + MoveNew + UniquePtrTarget + MakeCppStorage>(rng: &mut Rng, steps: usize) {
    for _ in 0..steps {
        let (alive0, storage0) = (n_alive(), n_storage());
        let v = rng.val();
        let keep_u: UniquePtr<T> = T::build(v).within_unique_ptr();
        let keep_b: Pin<Box<T>> = T::build(v).within_box();
        let held = n_alive();
        let kind = rng.below(13);
        // None: no panic; Some(n): the n-th construction or callee entry panics
        let bomb = if rng.below(2) == 0 { 0 } else { 1 + rng.below(3) as u32 };
        let (kv, kb) = (&keep_u, &keep_b);
        let r = quiet(|| {
            match kind {
                0 => {
                    arm(bomb);
                    call::<T, _>(kv.as_ref().unwrap())
                }
                1 => {
                    arm(bomb);
                    call::<T, _>(kv)
                }
                2 => {
                    arm(bomb);
                    call::<T, _>(kb)
                }
                3 => {
                    let u = T::build(v).within_unique_ptr();
                    arm(bomb);
                    call::<T, _>(u)
                }
                4 => {
                    let b = T::build(v).within_box();
                    arm(bomb);
                    call::<T, _>(b)
                }
                5 => {
                    arm(bomb);
                    call::<T, _>(as_new(T::build(v)))
                }
                6 => {
                    arm(bomb);
                    call::<T, _>(as_copy(kv.as_ref().unwrap()))
                }
                7 => {
                    let b = T::build(v).within_box();
                    arm(bomb);
                    call::<T, _>(as_copy(b))
                }
                8 => {
                    moveit! { let m = T::build(v); }
                    arm(bomb);
                    call::<T, _>(as_mov(m))
                }
                9 => {
                    let u = T::build(v).within_unique_ptr();
                    arm(bomb);
                    call::<T, _>(as_mov(u))
                }
                10 => {
                    let b = unsafe { Pin::into_inner_unchecked(T::build(v).within_box()) };
                    arm(bomb);
                    call::<T, _>(as_mov(b))
                }
                11 => {
                    let u = T::build(v).within_unique_ptr();
                    arm(bomb);
                    call2::<T, T, _, _>(kv, u).0
                }
                _ => {
                    arm(bomb);
                    call2::<T, T, _, _>(as_new(T::build(v)), kb.as_ref().get_ref()).1
                }
            }
        });
        let fired = bomb != 0 && !disarm();
        model(r.is_err() == fired, "a call failed without cause, or hid a panic");
        if let Ok(x) = r {
            model(x == v, "the callee saw another value");
            count("calls");
        } else {
            count("panics");
        }
        model(n_alive() == held, "an argument was not destroyed, or a caller's object was");
        model(T::get(&*keep_u as *const T) == v && T::get(&*keep_b as *const T) == v, "a copied argument was changed");
        drop(keep_u);
        drop(keep_b);
        model(n_alive() == alive0 && n_storage() == storage0, "storage or objects left behind");
    }
}

fn nulls() {
    set_expect(true);
    let nul: UniquePtr<Opaque> = UniquePtr::null();
    model(quiet(|| call::<Opaque, _>(&nul)).is_err(), "null &UniquePtr accepted");
    model(quiet(|| call::<Opaque, _>(nul)).is_err(), "null UniquePtr accepted");
    model(quiet(|| rcall::<Opaque, _>(UniquePtr::<Opaque>::null())).is_err(), "null UniquePtr accepted");
    set_expect(false);
    count("nulls");
}

pub fn run_value(rng: &mut Rng, steps: usize) {
    match rng.below(3) {
        0 => value_op::<Opaque>(rng, steps),
        1 => value_op::<Pod>(rng, steps),
        _ => value_op::<Wide>(rng, steps),
    }
    // never populated
    let h = ValueParamHandler::<Opaque, &Opaque>::default();
    drop(h);
    // a constructor which fails in ordinary Rust code
    let (a, s) = (n_alive(), n_storage());
    let r = quiet(|| call::<Pod, _>(as_new(new::by(|| -> Pod { std::panic::panic_any(Planned) }))));
    model(r.is_err() && n_alive() == a && n_storage() == s, "failed constructor");
    nulls();
    model(n_alive() == a, "objects left");
}

fn rvalue_op<T: Thing + UniquePtrTarget + MakeCppStorage>(rng: &mut Rng, steps: usize) {
    for _ in 0..steps {
        let (a, s) = (n_alive(), n_storage());
        let v = rng.val();
        let bomb = rng.below(2) as u32;
        let kind = rng.below(4);
        let r = quiet(|| match kind {
            0 => {
                let u = T::build(v).within_unique_ptr();
                arm(bomb);
                rcall::<T, _>(u)
            }
            1 => {
                let b = T::build(v).within_box();
                arm(bomb);
                rcall::<T, _>(b)
            }
            2 => {
                moveit! { let m = T::build(v); }
                arm(bomb);
                rcall::<T, _>(m)
            }
            _ => {
                moveit! { let m = T::build(v).with(|_| ()); }
                arm(bomb);
                rcall::<T, _>(m)
            }
        });
        disarm();
        model(r.is_err() == (bomb == 1), "a call failed without cause, or hid a panic");
        if let Ok(x) = r {
            model(x == v, "the callee saw another value");
            count("calls");
        } else {
            count("panics");
        }
        model(n_alive() == a && n_storage() == s, "an rvalue argument was not destroyed exactly once");
    }
}

pub fn run_rvalue(rng: &mut Rng, steps: usize) {
    match rng.below(3) {
        0 => rvalue_op::<Opaque>(rng, steps),
        1 => rvalue_op::<Pod>(rng, steps),
        _ => rvalue_op::<Wide>(rng, steps),
    }
    drop(RValueParamHandler::<Opaque, UniquePtr<Opaque>>::default());
    nulls();
}
