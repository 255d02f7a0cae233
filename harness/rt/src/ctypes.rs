//! The C integer wrappers keep values and have the layout of the types they stand for.
use crate::objs::{count, model};
use crate::Rng;
use std::collections::HashMap;
use std::mem::{align_of, size_of};

macro_rules! each {
    ($rng:expr, $($t:ident)*) => {$({
        type Raw = std::os::raw::$t;
        type W = autocxx::$t;
        model(size_of::<W>() == size_of::<Raw>() && align_of::<W>() == align_of::<Raw>(), concat!("layout of ", stringify!($t)));
        let raw = match $rng.below(6) {
            0 => Raw::MIN,
            1 => Raw::MAX,
            2 => 0 as Raw,
            3 => 1 as Raw,
            _ => $rng.next() as Raw,
        };
        let w: W = raw.into();
        let back: Raw = w.into();
        model(back == raw && w.0 == raw, concat!("conversion of ", stringify!($t)));
        let copy = w;
        model(copy == w && format!("{:?}", w).contains(&format!("{}", raw)), concat!("copy of ", stringify!($t)));
        let other = raw.wrapping_add(1);
        model(W::from(other) != w, concat!("equality of ", stringify!($t)));
        let mut h = HashMap::new();
        h.insert(w, 1);
        h.insert(W::from(other), 2);
        model(h[&w] == 1 && h.len() == 2, concat!("hash of ", stringify!($t)));
        // What a C++ callee does with a pointer to an array of them.
        let mut arr = [w, W::from(other), autocxx::$t(raw)];
        let p = arr.as_mut_ptr() as *mut Raw;
        unsafe {
            model(*p.add(1) == other && *p.add(2) == raw, concat!("array of ", stringify!($t)));
            *p = other;
        }
        model(arr[0].0 == other, concat!("write through array of ", stringify!($t)));
        count(stringify!($t));
    })*};
}

pub fn run(rng: &mut Rng, steps: usize) {
    for _ in 0..steps {
        each!(rng, c_ulonglong c_longlong c_ulong c_long c_ushort c_short c_uint c_int c_uchar);
        let c = autocxx::c_char16_t(rng.next() as u16);
        let p = &c as *const autocxx::c_char16_t as *const u16;
        model(unsafe { *p } == c.0 && size_of::<autocxx::c_char16_t>() == 2, "c_char16_t");
    }
}
