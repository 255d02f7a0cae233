//! Stand-ins for C++ objects: every construction, move, copy and destruction is entered in a registry.
use autocxx::cxx::memory::UniquePtrTarget;
use autocxx::moveit::{new, CopyNew, MakeCppStorage, MoveNew, MoveRef, New};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::fmt;
use std::marker::PhantomPinned;
use std::mem::MaybeUninit;
use std::pin::Pin;

pub struct Planned;

#[derive(Default)]
struct Reg {
    next: u64,
    alive: BTreeMap<u64, usize>, // id -> address (0: may move)
    built: u64,
    dropped: u64,
    storage: i64,
    counts: BTreeMap<&'static str, u64>,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static BOMB: Cell<u32> = const { Cell::new(0) };
    static EXPECT: Cell<bool> = const { Cell::new(false) };
}

pub fn model(ok: bool, what: &str) {
    if !ok {
        println!("MODEL {}", what);
        std::process::exit(3);
    }
}
pub fn count(k: &'static str) {
    REG.with(|r| *r.borrow_mut().counts.entry(k).or_default() += 1);
}
pub fn expecting() -> bool {
    EXPECT.with(|e| e.get())
}
pub fn set_expect(v: bool) {
    EXPECT.with(|e| e.set(v));
}
/// The n-th construction from now panics.
pub fn arm(n: u32) {
    BOMB.with(|b| b.set(n));
}
pub fn disarm() -> bool {
    BOMB.with(|b| b.replace(0) != 0)
}
pub fn fuse() {
    BOMB.with(|b| {
        let n = b.get();
        if n > 0 {
            b.set(n - 1);
            if n == 1 {
                std::panic::panic_any(Planned);
            }
        }
    })
}
pub fn register(addr: usize) -> u64 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.next += 1;
        r.built += 1;
        let id = r.next;
        r.alive.insert(id, addr);
        id
    })
}
pub fn unregister(id: u64, addr: usize) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        match r.alive.remove(&id) {
            None => {
                println!("MODEL object {} destroyed twice or never built", id);
                std::process::exit(3);
            }
            Some(a) if a != 0 && a != addr => {
                println!("MODEL object {} built at one address and destroyed at another", id);
                std::process::exit(3);
            }
            _ => {}
        }
        r.dropped += 1;
    })
}
pub fn alive(id: u64) -> bool {
    REG.with(|r| r.borrow().alive.contains_key(&id))
}
pub fn n_alive() -> usize {
    REG.with(|r| r.borrow().alive.len())
}
pub fn storage(d: i64) {
    REG.with(|r| r.borrow_mut().storage += d);
}
pub fn n_storage() -> i64 {
    REG.with(|r| r.borrow().storage)
}
pub fn finish() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        model(r.alive.is_empty(), &format!("{} objects never destroyed", r.alive.len()));
        model(r.storage == 0, &format!("{} storage blocks not freed", r.storage));
        let mut s = format!("DONE built={} dropped={}", r.built, r.dropped);
        for (k, v) in &r.counts {
            s += &format!(" {}={}", k, v);
        }
        println!("{}", s);
        *r = Reg::default();
    })
}

/// What a test needs of an object "implemented in C++": reads and writes go through raw pointers.
pub trait Thing: Sized {
    fn build(v: i64) -> impl New<Output = Self>;
    fn id(p: *const Self) -> u64;
    fn get(p: *const Self) -> i64;
    fn set(p: *mut Self, v: i64);
    /// A C++ callee which takes its parameter by value: moves out of `p`.
    fn consume(p: *mut Self) -> i64;
}

macro_rules! unique_ptr_target {
    ($t:ty) => {
        unsafe impl UniquePtrTarget for $t {
            fn __typename(f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str(stringify!($t))
            }
            fn __null() -> MaybeUninit<*mut c_void> {
                MaybeUninit::new(std::ptr::null_mut())
            }
            fn __new(value: Self) -> MaybeUninit<*mut c_void> {
                unsafe {
                    let p = Self::allocate_uninitialized_cpp_storage();
                    p.write(value);
                    MaybeUninit::new(p as *mut c_void)
                }
            }
            unsafe fn __raw(raw: *mut Self) -> MaybeUninit<*mut c_void> {
                MaybeUninit::new(raw as *mut c_void)
            }
            unsafe fn __get(repr: MaybeUninit<*mut c_void>) -> *const Self {
                repr.assume_init() as *const Self
            }
            unsafe fn __release(repr: MaybeUninit<*mut c_void>) -> *mut Self {
                repr.assume_init() as *mut Self
            }
            unsafe fn __drop(repr: MaybeUninit<*mut c_void>) {
                let p = repr.assume_init() as *mut Self;
                if !p.is_null() {
                    std::ptr::drop_in_place(p);
                    Self::free_uninitialized_cpp_storage(p);
                }
            }
        }
        unsafe impl MakeCppStorage for $t {
            unsafe fn allocate_uninitialized_cpp_storage() -> *mut Self {
                storage(1);
                std::alloc::alloc(std::alloc::Layout::new::<Self>()) as *mut Self
            }
            unsafe fn free_uninitialized_cpp_storage(p: *mut Self) {
                storage(-1);
                std::alloc::dealloc(p as *mut u8, std::alloc::Layout::new::<Self>())
            }
        }
    };
}

/// Like a generated opaque type: pinned, with its state behind `UnsafeCell`; knows its own address.
#[repr(C)]
pub struct Opaque {
    id: u64,
    me: *const Opaque,
    val: UnsafeCell<i64>,
    _pin: PhantomPinned,
}
impl Opaque {
    unsafe fn construct(this: Pin<&mut MaybeUninit<Self>>, v: i64) {
        fuse();
        let p = this.get_unchecked_mut();
        let addr = p.as_ptr();
        let id = register(addr as usize);
        p.write(Opaque { id, me: addr, val: UnsafeCell::new(v), _pin: PhantomPinned });
    }
    fn check(p: *const Self) {
        unsafe {
            model((*p).me as usize == p as usize, "an object is used at an address it was not built at");
            model(alive((*p).id), "a dead object is used");
        }
    }
}
impl Drop for Opaque {
    fn drop(&mut self) {
        Opaque::check(self);
        unregister(self.id, self as *const _ as usize);
    }
}
impl Thing for Opaque {
    fn build(v: i64) -> impl New<Output = Self> {
        unsafe { new::by_raw(move |this| Opaque::construct(this, v)) }
    }
    fn id(p: *const Self) -> u64 {
        unsafe { (*p).id }
    }
    fn get(p: *const Self) -> i64 {
        Opaque::check(p);
        unsafe { *(*p).val.get() }
    }
    fn set(p: *mut Self, v: i64) {
        Opaque::check(p);
        unsafe { *(*p).val.get() = v }
    }
    fn consume(p: *mut Self) -> i64 {
        let v = Opaque::get(p);
        fuse();
        Opaque::set(p, -1);
        v
    }
}
unsafe impl CopyNew for Opaque {
    unsafe fn copy_new(src: &Self, this: Pin<&mut MaybeUninit<Self>>) {
        Opaque::construct(this, Opaque::get(src));
    }
}
unsafe impl MoveNew for Opaque {
    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
        let p = Pin::into_inner_unchecked(src);
        let v = Opaque::get(&*p);
        Opaque::construct(this, v);
        *p.val.get() = -1;
    }
}
unique_ptr_target!(Opaque);

/// Like a generated POD: fields are plain Rust fields and it may be moved.
#[repr(C)]
pub struct Pod {
    id: u64,
    pub val: i64,
}
impl Pod {
    pub fn make(v: i64) -> Pod {
        fuse();
        Pod { id: register(0), val: v }
    }
}
impl Drop for Pod {
    fn drop(&mut self) {
        unregister(self.id, 0);
    }
}
impl Thing for Pod {
    fn build(v: i64) -> impl New<Output = Self> {
        new::by(move || Pod::make(v))
    }
    fn id(p: *const Self) -> u64 {
        unsafe { (*p).id }
    }
    fn get(p: *const Self) -> i64 {
        unsafe {
            model(alive((*p).id), "a dead object is used");
            (*p).val
        }
    }
    fn set(p: *mut Self, v: i64) {
        unsafe {
            model(alive((*p).id), "a dead object is used");
            (*p).val = v
        }
    }
    fn consume(p: *mut Self) -> i64 {
        let v = Pod::get(p);
        fuse();
        Pod::set(p, -1);
        v
    }
}
unsafe impl CopyNew for Pod {
    unsafe fn copy_new(src: &Self, mut this: Pin<&mut MaybeUninit<Self>>) {
        this.set(MaybeUninit::new(Pod::make(src.val)));
    }
}
unsafe impl MoveNew for Pod {
    unsafe fn move_new(src: Pin<MoveRef<Self>>, mut this: Pin<&mut MaybeUninit<Self>>) {
        let mut p = Pin::into_inner_unchecked(src);
        let v = std::mem::replace(&mut p.val, -1);
        this.set(MaybeUninit::new(Pod::make(v)));
    }
}
unique_ptr_target!(Pod);

/// Like a C++ class with data and an alignment of its own.
#[repr(C, align(64))]
pub struct Wide {
    pub id: u64,
    pub val: i64,
    _pad: [u8; 200],
}
impl Wide {
    pub fn make(v: i64) -> Wide {
        fuse();
        Wide { id: register(0), val: v, _pad: [7; 200] }
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        model(self as *const _ as usize % 64 == 0, "an object is under-aligned");
        unregister(self.id, 0);
    }
}
impl Thing for Wide {
    fn build(v: i64) -> impl New<Output = Self> {
        new::by(move || Wide::make(v))
    }
    fn id(p: *const Self) -> u64 {
        unsafe { (*p).id }
    }
    fn get(p: *const Self) -> i64 {
        unsafe {
            model(p as usize % 64 == 0, "an object is under-aligned");
            model(alive((*p).id), "a dead object is used");
            model((*p)._pad[199] == 7, "an object is not whole");
            (*p).val
        }
    }
    fn set(p: *mut Self, v: i64) {
        unsafe { (*p).val = v }
    }
    fn consume(p: *mut Self) -> i64 {
        let v = Wide::get(p);
        fuse();
        Wide::set(p, -1);
        v
    }
}
unsafe impl CopyNew for Wide {
    unsafe fn copy_new(src: &Self, mut this: Pin<&mut MaybeUninit<Self>>) {
        this.set(MaybeUninit::new(Wide::make(src.val)));
    }
}
unsafe impl MoveNew for Wide {
    unsafe fn move_new(src: Pin<MoveRef<Self>>, mut this: Pin<&mut MaybeUninit<Self>>) {
        let mut p = Pin::into_inner_unchecked(src);
        let v = std::mem::replace(&mut p.val, -1);
        this.set(MaybeUninit::new(Wide::make(v)));
    }
}
unique_ptr_target!(Wide);

/// Runs `f`, which may panic on purpose; true if it did.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.downcast_ref::<Planned>().is_none() && !expecting() {
                std::panic::resume_unwind(e);
            }
            Err(())
        }
    }
}
