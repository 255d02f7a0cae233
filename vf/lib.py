"""Type universe, C++/Rust runtime snippets shared by the generators of programs."""
import struct

# C++ side of the event log. Goes in input.cc (never in the header the generator sees).
RT_CPP = r'''
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <cstddef>
#include <map>
#include <string>
#include <utility>
#include <unistd.h>
static void vf_write(const std::string& s) {
  size_t off = 0;
  while (off < s.size()) { ssize_t n = ::write(1, s.data() + off, s.size() - off); if (n <= 0) break; off += (size_t)n; }
}
extern "C" void vf_emit(const char* p, size_t n) { std::string s(p, n); s.push_back('\n'); vf_write(s); }
struct VfL {
  std::string s;
  VfL(const std::string& tag) : s(tag) {}
  ~VfL() { s.push_back('\n'); vf_write(s); }
  VfL& i(long long v) { s += " " + std::to_string(v); return *this; }
  VfL& u(unsigned long long v) { s += " " + std::to_string(v); return *this; }
  VfL& f(float v) { uint32_t b; memcpy(&b, &v, 4); char t[32]; snprintf(t, 32, " f%08x", b); s += t; return *this; }
  VfL& d(double v) { uint64_t b; memcpy(&b, &v, 8); char t[32]; snprintf(t, 32, " d%016llx", (unsigned long long)b); s += t; return *this; }
  VfL& h(const char* p, size_t n) { s += " h"; for (size_t k = 0; k < n; k++) { char t[4]; snprintf(t, 4, "%02x", (unsigned char)p[k]); s += t; } return *this; }
  VfL& h(const std::string& x) { return h(x.data(), x.size()); }
  VfL& t(const char* x) { s += " "; s += x; return *this; }
  VfL& p(const void* x) { s += x ? " nonnull" : " null"; return *this; }
};
static float vf_f32(uint32_t b) { float v; memcpy(&v, &b, 4); return v; }
static double vf_f64(uint64_t b) { double v; memcpy(&v, &b, 8); return v; }
'''

# Rust side.
RT_RS = r'''
#[allow(dead_code)]
mod vf {
    extern "C" { fn vf_emit(p: *const u8, n: usize); }
    pub fn ev(s: impl AsRef<str>) { let s = s.as_ref(); unsafe { vf_emit(s.as_ptr(), s.len()) } }
    pub fn hex(b: &[u8]) -> String { let mut s = String::from("h"); for x in b { s.push_str(&format!("{:02x}", x)); } s }
    pub fn f(v: f32) -> String { format!("f{:08x}", v.to_bits()) }
    pub fn d(v: f64) -> String { format!("d{:016x}", v.to_bits()) }
    pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }
}
#[allow(unused_imports)]
use vf::ev;
'''

RS_ALLOW = "#![allow(unused, unused_unsafe, non_snake_case, non_camel_case_types, dead_code, unused_must_use)]\n"


def hexs(b):
    return "h" + b.hex()


def f32bits(v):
    return struct.unpack("<I", struct.pack("<f", v))[0]


def f64bits(v):
    return struct.unpack("<Q", struct.pack("<d", v))[0]


INT_TYPES = [
    # cpp spelling, rust type, signed, bits, wrapper ctor (or None)
    ("int8_t", "i8", True, 8, None), ("uint8_t", "u8", False, 8, None),
    ("int16_t", "i16", True, 16, None), ("uint16_t", "u16", False, 16, None),
    ("int32_t", "i32", True, 32, None), ("uint32_t", "u32", False, 32, None),
    ("int64_t", "i64", True, 64, None), ("uint64_t", "u64", False, 64, None),
    ("size_t", "usize", False, 64, None),
    ("signed char", "i8", True, 8, None), ("unsigned char", "u8", False, 8, None),
    ("char", "std::os::raw::c_char", True, 8, None),
    ("short", "c_short", True, 16, "c_short"), ("unsigned short", "c_ushort", False, 16, "c_ushort"),
    ("int", "c_int", True, 32, "c_int"), ("unsigned int", "c_uint", False, 32, "c_uint"),
    ("long", "c_long", True, 64, "c_long"), ("unsigned long", "c_ulong", False, 64, "c_ulong"),
    ("long long", "c_longlong", True, 64, "c_longlong"), ("unsigned long long", "c_ulonglong", False, 64, "c_ulonglong"),
]


def rng_int(rng, signed, bits):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    k = rng.random()
    if k < 0.15:
        return lo
    if k < 0.3:
        return hi
    if k < 0.4:
        return -1 if signed else hi - 1
    if k < 0.45:
        return 0
    return rng.randint(lo, hi)


def cpp_int(v, signed, bits):
    if signed:
        if v == -(1 << (bits - 1)):
            return "(%dLL - 1)" % (v + 1)
        return "%dLL" % v
    return "%dULL" % v


def rs_int(v, rty, wrapper):
    if wrapper:
        return "autocxx::%s(%d)" % (wrapper, v) if not wrapper == "c_char16_t" else "autocxx::c_char16_t(%d)" % v
    return "(%d as %s)" % (v, rty)


STRINGS = ["", "a", "hello", "\u00e9\u4f60\U0001f600", "x" * 15, "y" * 16, "z" * 23, "w" * 40, "nul\0inside", "\0", "tab\tquote\"back\\nl\n", "%s%d"]


def rng_str(rng):
    if rng.random() < 0.6:
        return rng.choice(STRINGS)
    n = rng.choice([1, 7, 15, 16, 22, 31, 64, 300])
    return "".join(rng.choice(["a", "B", "0", " ", "\0", "\u00ff", "\u0100", "\ud7ff", "\U0010ffff", "\n", "\"", "\\"]) for _ in range(n))


def rs_str(s):
    out = '"'
    for c in s:
        out += "\\u{%x}" % ord(c)
    return out + '"'


def cpp_str(b):
    """std::string expression from bytes."""
    return 'std::string("%s", %d)' % ("".join("\\%03o" % x for x in b), len(b))
