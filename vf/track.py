"""Tracked C++ classes: an online lifetime monitor (registry keyed by address and type) plus value log.

Monitored invariants (each breach is logged as a BAD line, which no model ever predicts):
  - construction never happens over a live object, or at a misaligned address
  - destruction and use only of live objects, at the address they were constructed at
The `L` event reports the values of all live objects, compared with the model's set of owners."""
from .lib import *
from .types import Ty, q

TRACK_RT = RT_CPP + r'''
#include <vector>
#include <algorithm>
struct VfObj { uint32_t v; size_t sz; };
static std::map<std::pair<const void*, const char*>, VfObj>& vf_live() { static auto* m = new std::map<std::pair<const void*, const char*>, VfObj>; return *m; }
static unsigned long vf_n_value, vf_n_copy, vf_n_move, vf_n_dtor, vf_n_use;
static void vf_bad(const char* what, const char* ty) { vf_write(std::string("BAD ") + what + " " + ty + "\n"); }
static void vf_born(const void* p, const char* ty, size_t al, size_t sz, uint32_t v) {
  if ((uintptr_t)p % al) vf_bad("misaligned-construction", ty);
  auto k = std::make_pair(p, ty);
  if (vf_live().count(k)) vf_bad("construction-over-live-object", ty);
  // overlap with a live object of the same type
  for (auto& e : vf_live()) if (e.first.second == ty && e.first.first != p) {
    auto a = (const char*)p, b = (const char*)e.first.first;
    if (a < b + e.second.sz && b < a + sz) { vf_bad("construction-overlapping-live-object", ty); break; }
  }
  vf_live()[k] = VfObj{v, sz};
}
static void vf_set(const void* p, const char* ty, uint32_t v) { auto i = vf_live().find(std::make_pair(p, ty)); if (i == vf_live().end()) vf_bad("write-outside-lifetime", ty); else i->second.v = v; }
static void vf_use(const void* p, const char* ty, const void* self) {
  vf_n_use++;
  if (!vf_live().count(std::make_pair(p, ty))) { vf_bad("use-outside-lifetime", ty); return; }
  if (self != p) vf_bad("object-was-moved-bitwise", ty);
}
static void vf_dead(const void* p, const char* ty, const void* self) {
  vf_n_dtor++;
  if (!vf_live().erase(std::make_pair(p, ty))) { vf_bad("destruction-outside-lifetime", ty); return; }
  if (self != p) vf_bad("object-was-moved-bitwise", ty);
}
extern "C" void vf_report() {
  std::vector<uint32_t> v; for (auto& e : vf_live()) v.push_back(e.second.v);
  std::sort(v.begin(), v.end());
  VfL l("L"); l.u(v.size()); for (auto x : v) l.u(x);
}
extern "C" void vf_stats() {
  char t[200]; snprintf(t, 200, "#STATS value=%lu copy=%lu move=%lu dtor=%lu use=%lu\n", vf_n_value, vf_n_copy, vf_n_move, vf_n_dtor, vf_n_use);
  vf_write(t);
}
'''
TRACK_RS = RT_RS + r'''
#[allow(dead_code)]
mod tr {
    extern "C" { fn vf_report(); fn vf_stats(); }
    pub fn live() { unsafe { vf_report() } }
    pub fn stats() { unsafe { vf_stats() } }
}
'''

VARIANTS = ["cm", "c", "m", "virt", "al32", "big", "vec", "implicit", "implicit_m", "implicit_base", "implicit_arr"]


class TrTy(Ty):
    """A tracked class. `copy`/`move`: which special members C++ has."""
    kind = "tracked"

    def __init__(self, ns, name, variant, opnew=False, ctors=False):
        self.ctors = ctors and not variant.startswith("implicit")
        self.ns, self.name, self.variant = ns, name, variant
        self.qual = q(ns, name)
        self.cpp = "::" + self.qual
        self.rs = "ffi::" + self.qual
        self.copy = variant not in ("m", "implicit_m")
        self.kind = "tracked:" + variant
        self.opnew = opnew

    def core(self):
        """name of the class holding the tracked core (differs for implicit variants)"""
        return self.name + "Core" if self.variant.startswith("implicit") else self.name

    def decl(self):
        c = self.core()
        v = self.variant
        virt = "virtual " if v == "virt" else ""
        cp = "%s(const %s& o);" % (c, c)
        mv = "%s(%s&& o);" % (c, c)
        if v == "c":
            mv = ""
        if v in ("m", "implicit_m"):
            cp = "%s(const %s& o) = delete;" % (c, c)
        extra = {"big": "uint8_t pad_[300];", "vec": "std::vector<uint32_t> pad_; std::string pad2_;", "al32": ""}.get(v, "")
        al = "alignas(32) " if v == "al32" else ""
        opn = ("static void* operator new(size_t); static void operator delete(void*);" if self.opnew else "")
        xc = "%s(); %s(uint32_t a, uint32_t b, bool neg);" % (c, c) if self.ctors else ""
        s = "class %s%s { public: explicit %s(uint32_t v); XCTORS %s %s %s~%s(); %s uint32_t get() const; void set(uint32_t v); %s private: %s* self_; uint32_t* heap_; uint32_t v_; %s };" % (
            al, c, c, cp, mv, virt, c, opn, ("%suint32_t vget() const;" % virt) if virt else "", c, extra)
        s = s.replace("XCTORS", xc)
        if v.startswith("implicit"):
            # no declared special members: copy, move and destructor are implicit
            if v == "implicit_base":
                s += "\nstruct %s : public %s { uint16_t tail_; uint32_t get() const; void set(uint32_t v); %s(uint32_t v); };" % (self.name, c, self.name)
            elif v == "implicit_arr":
                s += "\nstruct %s { uint16_t lead_; %s core_[1]; uint32_t get() const; void set(uint32_t v); %s(uint32_t v); };" % (self.name, c, self.name)
            else:
                s += "\nstruct %s { uint8_t lead_; %s core_; uint32_t get() const; void set(uint32_t v); %s(uint32_t v); };" % (self.name, c, self.name)
        return s

    def defs(self):
        c = self.core()
        cq = q(self.ns, c)
        v = self.variant
        tag = '"%s"' % c
        s = "static const char* const tag_%s = %s;\n" % (c, tag)
        t = "tag_%s" % c
        extra_init = ", pad_(3, v), pad2_(40, 'x')" if v == "vec" else ""
        s += "%s::%s(uint32_t v) : self_(this), heap_(new uint32_t(v)), v_(v)%s { vf_n_value++; VfL(\"N %s\").u(v); vf_born(this, %s, alignof(%s), sizeof(%s), v); }\n" % (cq, c, extra_init, c, t, cq, cq)
        if self.ctors:
            for sig, val in (("", "42"), ("uint32_t a, uint32_t b, bool neg", "(neg ? a - b : a * 1000 + b)")):
                s += "%s::%s(%s) : self_(this), heap_(new uint32_t(%s)), v_(%s)%s { vf_n_value++; VfL(\"N%s %s\").u(v_); vf_born(this, %s, alignof(%s), sizeof(%s), v_); }\n" % (
                    cq, c, sig, val, val, extra_init.replace(", v)", ", 9)"), "d" if not sig else "t", c, t, cq, cq)
        extra_c = ", pad_(o.pad_), pad2_(o.pad2_)" if v == "vec" else ""
        if v not in ("m", "implicit_m"):
            s += "%s::%s(const %s& o) : self_(this), heap_(new uint32_t(*o.heap_)), v_(o.v_)%s { vf_n_copy++; vf_use(&o, %s, o.self_); vf_born(this, %s, alignof(%s), sizeof(%s), v_); }\n" % (cq, c, c, extra_c, t, t, cq, cq)
        if v != "c":
            s += "%s::%s(%s&& o) : self_(this), heap_(o.heap_), v_(o.v_)%s { vf_n_move++; vf_use(&o, %s, o.self_); o.heap_ = nullptr; o.v_ = 0; vf_set(&o, %s, 0); vf_born(this, %s, alignof(%s), sizeof(%s), v_); }\n" % (
                cq, c, c, ", pad_(std::move(o.pad_)), pad2_(std::move(o.pad2_))" if v == "vec" else "", t, t, t, cq, cq)
        s += "%s::~%s() { vf_dead(this, %s, self_); delete heap_; heap_ = (uint32_t*)8; v_ = 0xdeadbeef; }\n" % (cq, c, t)
        s += "uint32_t %s::get() const { vf_use(this, %s, self_); if (heap_ && *heap_ != v_) vf_bad(\"torn-value\", %s); return v_; }\n" % (cq, t, t)
        s += "void %s::set(uint32_t v) { vf_use(this, %s, self_); v_ = v; if (heap_) *heap_ = v; else heap_ = new uint32_t(v); vf_set(this, %s, v); }\n" % (cq, t, t)
        if v == "virt":
            s += "uint32_t %s::vget() const { return get(); }\n" % cq
        if self.opnew:
            # keys are masked so that the map does not hide a leak from LeakSanitizer
            s += ("static std::map<uintptr_t, size_t>& heap_%s() { static auto* m = new std::map<uintptr_t, size_t>; return *m; }\n" % c)
            s += ("void* %s::operator new(size_t n) { if (n != sizeof(%s)) vf_bad(\"wrong-size-operator-new\", %s); void* p = ::operator new(n); heap_%s()[~(uintptr_t)p] = n; VfL(\"ON %s\"); return p; }\n" % (cq, cq, t, c, c))
            s += ("void %s::operator delete(void* p) { if (p && !heap_%s().erase(~(uintptr_t)p)) vf_bad(\"foreign-pointer-to-operator-delete\", %s); VfL(\"OD %s\"); ::operator delete(p); }\n" % (cq, c, t, c))
        if v.startswith("implicit"):
            n = q(self.ns, self.name)
            init, core = {"implicit_base": ("%s(v), tail_(2)" % c, "static_cast<const %s&>(*this)" % c), "implicit_arr": ("lead_(3), core_{%s(v)}" % c, "core_[0]")}.get(v, ("lead_(1), core_(v)", "core_"))
            s += "%s::%s(uint32_t v) : %s {}\nuint32_t %s::get() const { return %s.get(); }\nvoid %s::set(uint32_t v) { %s.set(v); }\n" % (n, self.name, init, n, core, n, core.replace("const ", ""))
        return s

    def directives(self):
        return ['generate!("%s")' % self.qual]

    def new_event(self, v):
        return "N %s %d" % (self.core(), v)
