"""Catalogue of C++ constructs that bindings can or cannot express, each a valid piece of header. '$' is a unique number."""

# (name, declarations). Free-standing items: valid C++14 unless STD says otherwise; never called by the programs.
FREE = [
    ("variadic", "int var_$(int n, ...);"),
    ("fnptr_param", "void fpp_$(int (*cb)(int));"),
    ("fnptr_ret", "int (*fpr_$(int a))(int);"),
    ("fnptr_typedef", "typedef void (*Cb_$)(uint32_t, void*);\nvoid fpt_$(Cb_$ c, void* d);"),
    ("fnptr_using_ret", "using Cf_$ = uint32_t (*)(uint32_t);\nCf_$ fur_$();"),
    ("array_param", "uint32_t arp_$(uint32_t a[4]);"),
    ("array_ref", "uint32_t arr_$(uint32_t (&a)[4]);"),
    ("array_ptr", "uint32_t app_$(uint32_t (*a)[3]);"),
    ("array_typedef", "typedef uint8_t Arr_$[16];\nvoid art_$(Arr_$ a);\nvoid art2_$(const Arr_$& a);"),
    ("rvalue_ret", "struct Rr_$ { uint32_t a; };\nRr_$&& rvr_$(Rr_$&& a);"),
    ("rvalue_int", "void rvi_$(uint32_t&& a);"),
    ("const_rvalue", "struct Cr_$ { uint32_t a; };\nvoid crv_$(const Cr_$&& a);"),
    ("union", "union Un_$ { uint32_t a; float b; };\nuint32_t unv_$(Un_$ u);\nUn_$ unr_$();\nuint32_t unp_$(const Un_$* u);"),
    ("union_member", "struct Um_$ { uint32_t t; union { uint32_t a; float b; }; };\nuint32_t umv_$(const Um_$& u);"),
    ("union_named_member", "struct Uq_$ { union { uint32_t a; float b; } u; uint32_t t; };\nUq_$ uqr_$();"),
    ("nontrivial_union", "union Nu_$ { uint32_t a; std::string s; Nu_$(); ~Nu_$(); };\nvoid nur_$(const Nu_$& a);"),
    ("template_fn", "template <typename T> T tf_$(T a) { return a; }"),
    ("template_class", "template <typename T> class Tc_$ { public: T get() const { return t; } T t; };\nuint32_t tcr_$(const Tc_$<uint32_t>& a);\nTc_$<uint8_t> tcv_$();\nvoid tcm_$(Tc_$<Tc_$<int>>* p);"),
    ("template_typedef", "template <typename T> struct Tt_$ { T t; };\ntypedef Tt_$<uint32_t> Tti_$;\nvoid ttr_$(const Tti_$& a);\nTti_$ ttv_$();"),
    ("template_default", "template <typename T, int N = 4, typename U = T> struct Td_$ { T t[N]; U u; };\nvoid tdr_$(const Td_$<uint8_t>& a);"),
    ("template_variadic", "template <typename... T> struct Tv_$ {};\nvoid tvr_$(const Tv_$<int, char, bool>& a);\ntemplate <typename... T> void tvf_$(T... t) {}"),
    ("template_spec", "template <typename T> struct Ts_$ { T t; };\ntemplate <> struct Ts_$<bool> { uint8_t q; };\ntemplate <typename T> struct Ts_$<T*> { T* p; };\nvoid tsr_$(const Ts_$<bool>& a, const Ts_$<int*>& b);"),
    ("template_template", "template <template <typename> class C> struct Tp_$ { C<int> c; };\ntemplate <typename T> struct Tq_$ { T t; };\nvoid tpr_$(const Tp_$<Tq_$>& a);"),
    ("template_alias", "template <typename T> using Ta_$ = std::vector<T>;\nvoid tar_$(const Ta_$<uint32_t>& a);"),
    ("template_dependent", "template <typename T> struct De_$ { typedef typename T::value_type V; V v; };\nstruct Dt_$ { typedef uint16_t value_type; };\nvoid der_$(const De_$<Dt_$>& a);\nDe_$<Dt_$>::V dev_$();"),
    ("template_inner", "template <typename T> struct Ti_$ { struct In { T t; }; enum E { A, B }; };\nvoid tir_$(const Ti_$<int>::In& a);\nTi_$<int>::E tie_$();"),
    ("crtp", "template <typename D> struct Crtp_$ { uint32_t base() const { return 1; } };\nstruct Cd_$ : Crtp_$<Cd_$> { uint32_t a; uint32_t own() const { return a; } };\nuint32_t cdr_$(const Cd_$& d);"),
    ("sfinae", "template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> T sf_$(T t) { return t; }"),
    ("explicit_inst", "template <typename T> struct Ei_$ { T t; T get() const { return t; } };\nextern template struct Ei_$<uint64_t>;\nvoid eir_$(Ei_$<uint64_t>& e);"),
    ("anon_ns", "namespace { inline uint32_t ans_$() { return 1; } struct Ans_$ { int a; }; }\nuint32_t ansu_$();"),
    ("anon_struct_typedef", "typedef struct { uint32_t a; } As_$;\nuint32_t asr_$(const As_$& a);"),
    ("anon_struct_var", "extern struct { uint32_t a; } asv_$;"),
    ("anon_enum", "enum { AE_$_X = 5, AE_$_Y };\nuint32_t aeu_$();"),
    ("anon_enum_member", "struct Aem_$ { enum { P, Q } k; uint32_t z; };\nvoid aemr_$(const Aem_$& a);"),
    ("double_underscore_fn", "uint32_t du__fn_$(uint32_t a);\nuint32_t __lead_$();\nuint32_t trail_$__();"),
    ("double_underscore_type", "struct Du__T_$ { uint32_t a; };\nuint32_t dut_$(const Du__T_$& a);\nDu__T_$ duv_$();"),
    ("leading_underscore", "struct _Lu_$ { uint32_t a; };\nvoid lur_$(const _Lu_$& a);\nuint32_t _lu_$();"),
    ("fwd_only", "class Fw_$;\nvoid fwp_$(Fw_$* p);\nconst Fw_$& fwr_$();\nstd::unique_ptr<Fw_$> fwu_$();"),
    ("fwd_by_value", "class Fv_$;\nvoid fvv_$(Fv_$ v);\nFv_$ fvr_$();"),
    ("fwd_nested", "class Fn_$ { public: class Inner; void take(Inner* i); uint32_t ok() const; };"),
    ("bitfield", "struct Bf_$ { uint32_t a : 3; uint32_t b : 29; uint64_t c; };\nuint32_t bfv_$(Bf_$ b);\nBf_$ bfr_$();"),
    ("bitfield_zero", "struct Bz_$ { uint8_t a : 1; uint8_t : 0; uint8_t b; };\nvoid bzr_$(const Bz_$& b);"),
    ("operators", "struct Op_$ { uint32_t a; Op_$ operator+(const Op_$& o) const; bool operator==(const Op_$& o) const; Op_$& operator=(const Op_$& o); uint32_t operator()(uint32_t x) const; uint32_t operator[](int i) const; operator bool() const; explicit operator uint32_t() const; Op_$& operator++(); Op_$ operator++(int); Op_$* operator->(); bool operator<(const Op_$& o) const; };\nOp_$ operator-(const Op_$& a, const Op_$& b);\nbool operator!=(const Op_$& a, const Op_$& b);"),
    ("op_new", "struct On_$ { uint32_t a; static void* operator new(size_t n); static void operator delete(void* p); };\nvoid onr_$(const On_$& o);"),
    ("user_literal", "unsigned long long operator\"\" _ul$(unsigned long long v);"),
    ("std_function", "void sfn_$(std::function<void(int)> f);\nstd::function<int()> sfr_$();"),
    ("std_map", "void smp_$(const std::map<std::string, uint32_t>& m);\nstd::map<int, int> smr_$();"),
    ("std_pair", "std::pair<uint32_t, uint32_t> spr_$();\nvoid spt_$(std::tuple<int, float> t);"),
    ("std_array", "std::array<uint32_t, 4> sar_$();\nvoid sap_$(const std::array<uint8_t, 8>& a);"),
    ("std_misc", "void smi_$(std::initializer_list<int> l);\nstd::wstring smw_$();\nvoid smu_$(std::u16string s);\nvoid smd_$(const std::deque<int>& d, const std::set<std::string>& s);"),
    ("std_nested", "std::vector<std::vector<uint32_t>> snv_$();\nvoid snm_$(std::unordered_map<std::string, std::vector<std::string>> m);\nstd::unique_ptr<uint32_t> snu_$();\nstd::shared_ptr<std::string> sns_$();"),
    ("std_nested2", "std::vector<std::vector<uint32_t>> snx_$();\nstd::unique_ptr<uint32_t> sny_$();\nstd::shared_ptr<std::string> snz_$();\nstd::unordered_map<std::string, uint32_t> snh_$();"),
    ("std_up_deleter", "struct Dl_$ { void operator()(int* p) const; };\nstd::unique_ptr<int, Dl_$> sud_$();"),
    ("std_atomic", "struct Sat_$ { std::atomic<uint32_t> a; uint32_t get() const; };\nvoid satr_$(Sat_$& a);"),
    ("std_exception", "struct Sex_$ : std::exception { const char* what() const noexcept override; };\nvoid sexr_$(const Sex_$& a);"),
    ("long_double", "long double ldr_$(long double a);"),
    ("int128", "__int128 i128_$(__int128 a);\nunsigned __int128 u128_$();"),
    ("wide_chars", "wchar_t wc_$(wchar_t a);\nchar16_t c16_$();\nchar32_t c32_$(char32_t a);\nconst wchar_t* wcp_$();\nconst char16_t* c16p_$();"),
    ("bool_ptr", "bool* bp_$(bool* a);\nbool& br_$(bool& a);"),
    ("ptr_ptr", "void pp_$(int** p);\nchar** ppc_$();\nvoid ppp_$(void*** p);\nconst char* const* ppk_$(const char* const* a);"),
    ("ref_ptr", "struct Rp_$ { uint32_t a; };\nvoid rpr_$(Rp_$*& p);\nRp_$*const& rpk_$();"),
    ("member_ptr", "struct Mp_$ { uint32_t a; uint32_t f() const; };\nvoid mpd_$(uint32_t Mp_$::* p);\nvoid mpf_$(uint32_t (Mp_$::* p)() const);"),
    ("volatile", "void vol_$(volatile uint32_t* p);\nvolatile uint32_t volr_$();\nstruct Vo_$ { volatile uint32_t a; uint32_t g() volatile; };"),
    ("restrict", "void rst_$(uint8_t* __restrict a, const uint8_t* __restrict b);"),
    ("default_args", "uint32_t da_$(uint32_t a, uint32_t b = 5, const char* c = \"x\");"),
    ("constexpr", "constexpr uint32_t cx_$(uint32_t a) { return a + 1; }\nconstexpr uint32_t CX_$ = cx_$(4);"),
    ("noexcept", "uint32_t ne_$(uint32_t a) noexcept;\nuint32_t nt_$() throw();"),
    ("attributes", "[[deprecated(\"no\")]] uint32_t dep_$();\n[[noreturn]] void nor_$();\n__attribute__((visibility(\"default\"))) uint32_t vis_$();\nuint32_t mnu_$() __attribute__((warn_unused_result));"),
    ("extern_c", "extern \"C\" { uint32_t exc_$(uint32_t a); struct Ec_$ { int a; }; void ecp_$(struct Ec_$* p); }"),
    ("static_fn", "static inline uint32_t stf_$(uint32_t a) { return a; }"),
    ("inline_ns", "inline namespace v$ { uint32_t ins_$(); struct Ins_$ { uint32_t a; }; }\nvoid insr_$(const Ins_$& i);"),
    ("using_decl", "namespace ud_$ { struct Ud_$ { uint32_t a; }; uint32_t udf_$(); }\nusing ud_$::Ud_$;\nusing ud_$::udf_$;\nvoid udr_$(const Ud_$& u);"),
    ("using_ns", "namespace un_$ { struct Uns_$ { uint32_t a; }; }\nusing namespace un_$;\nvoid unsr_$(const Uns_$& u);"),
    ("ns_alias", "namespace na_$ { struct Na_$ { uint32_t a; }; }\nnamespace nb_$ = na_$;\nvoid nar_$(const nb_$::Na_$& u);"),
    ("friend", "class Fr_$ { uint32_t a; friend uint32_t frf_$(const Fr_$& f); friend class Frc_$; friend bool operator==(const Fr_$& x, const Fr_$& y) { return x.a == y.a; } public: uint32_t g() const; };\nuint32_t frf_$(const Fr_$& f);"),
    ("private_everything", "class Pe_$ { Pe_$(); ~Pe_$(); Pe_$(const Pe_$&); uint32_t a() const; static uint32_t b(); public: uint32_t c() const; };\nconst Pe_$& per_$();"),
    ("protected", "class Pr_$ { protected: Pr_$(); virtual ~Pr_$(); uint32_t a() const; virtual void v(); public: uint32_t c() const; };"),
    ("deleted", "struct Dd_$ { Dd_$() = delete; Dd_$(const Dd_$&) = delete; Dd_$& operator=(const Dd_$&) = delete; void gone() = delete; uint32_t c() const; };\nvoid ddf_$(int) = delete;\nvoid ddf_$(uint64_t);"),
    ("deleted_dtor", "struct Dx_$ { ~Dx_$() = delete; uint32_t c() const; };\nDx_$& dxr_$();"),
    ("abstract", "class Ab_$ { public: virtual ~Ab_$(); virtual uint32_t pv(uint32_t) const = 0; virtual uint32_t nv() { return 1; } uint32_t c() const; };\nAb_$& abr_$();\nstd::unique_ptr<Ab_$> abu_$();"),
    ("multi_inherit", "struct Ma_$ { virtual ~Ma_$(); uint32_t a; }; struct Mb_$ { virtual uint32_t mb() const; uint32_t b; };\nclass Mc_$ : public Ma_$, private Mb_$ { public: uint32_t c() const; };\nMc_$& mcr_$();"),
    ("virtual_inherit", "struct Va_$ { uint32_t a; uint32_t va() const; }; struct Vb_$ : virtual Va_$ {}; struct Vc_$ : virtual Va_$ {}; struct Vd_$ : Vb_$, Vc_$ { uint32_t d() const; };\nconst Vd_$& vdr_$();"),
    ("overload_derived", "struct Ob_$ { uint32_t f() const; uint32_t f(uint32_t) const; }; struct Oc_$ : Ob_$ { using Ob_$::f; uint32_t f(const char*) const; };\nconst Oc_$& ocr_$();"),
    ("inherit_ctors", "struct Ib_$ { Ib_$(uint32_t a); Ib_$(const std::string& s); uint32_t a; }; struct Ic_$ : Ib_$ { using Ib_$::Ib_$; };\nvoid icr_$(const Ic_$& i);"),
    ("globals", "extern uint32_t gv_$;\nextern const uint32_t gc_$;\nconst uint32_t gk_$ = 77;\nextern const char* gs_$;\nextern uint8_t ga_$[4];\nconstexpr double gd_$ = 1.5;\nstruct Gt_$ { uint32_t a; };\nextern Gt_$ gt_$;\nextern const std::string gstr_$;"),
    ("static_members", "struct Sm_$ { static uint32_t count; static const uint32_t K = 4; static constexpr double D = 2.5; static const char* const N; uint32_t a; static Sm_$& inst(); };"),
    ("macros", "#define MC_$ 42\n#define MS_$ \"text\"\n#define MF_$(x) ((x) + 1)\n#define ME_$ (1 << 3)\n#define MEMPTY_$\n#define MNEG_$ -7\n#define MBIG_$ 0xffffffffffffffffULL\n#define MCH_$ 'c'\nuint32_t mcr_$();"),
    ("enum_negative", "enum En_$ { EN_$_A = -5, EN_$_B = 0, EN_$_C = 0x7fffffff };\nEn_$ enr_$(En_$ e);"),
    ("enum_dup", "enum class Ed_$ : uint8_t { A = 1, B = 1, C = 255 };\nEd_$ edr_$(Ed_$ e);"),
    ("enum_wide", "enum class Ew_$ : uint64_t { A = 0, B = 0xffffffffffffffffULL };\nenum class Ex_$ : int8_t { A = -128, B = 127 };\nEw_$ ewr_$();\nEx_$ exr_$();"),
    ("enum_bool", "enum class Ebl_$ : bool { No, Yes };\nEbl_$ ebr_$();"),
    ("enum_fwd", "enum class Ef_$ : uint16_t;\nvoid efr_$(Ef_$ e);"),
    ("enum_empty", "enum class Ee_$ {};\nenum Eg_$ {};\nEe_$ eer_$();"),
    ("flexible_array", "struct Fa_$ { uint32_t n; uint8_t data[]; };\nvoid far_$(const Fa_$* f);"),
    ("zero_array", "struct Za_$ { uint32_t n; uint8_t data[0]; };\nvoid zar_$(const Za_$& f);"),
    ("multi_array", "struct Mda_$ { uint32_t m[2][3]; };\nvoid mdr_$(const Mda_$& f);\nMda_$ mdv_$();"),
    ("packed", "struct __attribute__((packed)) Pk_$ { uint8_t a; uint32_t b; };\nvoid pkr_$(const Pk_$& p);\n#pragma pack(push, 1)\nstruct Pq_$ { uint8_t a; uint64_t b; };\n#pragma pack(pop)\nPq_$ pqv_$();"),
    ("alignas", "struct alignas(32) Al_$ { uint8_t a; };\nvoid alr_$(const Al_$& a);\nAl_$ alv_$();"),
    ("ref_member", "struct Rm_$ { uint32_t& r; const std::string& s; Rm_$(uint32_t& a, const std::string& b); };\nvoid rmr_$(const Rm_$& r);"),
    ("const_member", "struct Cm_$ { const uint32_t c; mutable uint32_t m; Cm_$(); };\nvoid cmr_$(const Cm_$& r);"),
    ("self_ptr", "struct Sp_$ { Sp_$* next; std::vector<Sp_$> kids; std::unique_ptr<Sp_$> one; uint32_t v() const; };\nSp_$* spn_$(Sp_$* s);"),
    ("mutual", "struct Mu2_$; struct Mu1_$ { Mu2_$* o; uint32_t a() const; }; struct Mu2_$ { Mu1_$* o; Mu1_$ v; };\nvoid mur_$(const Mu1_$& a, const Mu2_$& b);"),
    ("typedef_chain", "typedef uint32_t T1_$; typedef T1_$ T2_$; using T3_$ = T2_$; typedef const T3_$ T4_$; typedef T4_$* T5_$;\nT3_$ tch_$(T4_$ a, T5_$ b);"),
    ("typedef_struct", "struct tsx_$ { uint32_t a; }; typedef struct tsx_$ Tsx_$; typedef Tsx_$ Tsy_$;\nvoid tsxr_$(const Tsy_$& a);\nTsx_$ tsxv_$();"),
    ("typedef_same", "typedef struct Tsm_$ { uint32_t a; } Tsm_$;\nvoid tsmr_$(const Tsm_$& a);"),
    ("typedef_fn", "typedef uint32_t Tfn_$(uint32_t);\nTfn_$ tfd_$;\nvoid tfp_$(Tfn_$* f);"),
    ("trailing_return", "auto trr_$(uint32_t a) -> uint32_t;\ninline auto tau_$(uint32_t a) { return a + 1; }\ninline decltype(auto) tda_$(uint32_t a) { return a; }"),
    ("lambda", "static auto lam_$ = [](int a) { return a + 1; };\nuint32_t lamu_$();"),
    ("nested_classes", "struct Ne_$ { struct A { struct B { struct C { uint32_t v; uint32_t g() const; } c; } b; } a; enum class E { X, Y } e; };\nvoid ner_$(const Ne_$::A::B::C& c, Ne_$::E e);"),
    ("nested_private", "class Np_$ { struct Hid { uint32_t a; }; Hid h; public: struct Vis { uint32_t b; }; uint32_t g() const; Hid hidden() const; void takes(const Vis& v, const Hid& h); };"),
    ("nested_typedef", "class Nt_$ { public: typedef uint32_t value_type; using It_$ = Nt_$; typedef std::vector<uint32_t> Vec; value_type get() const; It_$* me(); Vec vec() const; };"),
    ("local_type_names", "struct Ln_$ { uint32_t Ln_field; uint32_t self; uint32_t type; uint32_t crate; uint32_t super_; };\nuint32_t lnr_$(Ln_$ self, uint32_t type, uint32_t impl, uint32_t crate);"),
    ("unnamed_params", "uint32_t unp2_$(uint32_t, const std::string&, uint32_t);\nvoid unv2_$(void);"),
    ("same_param_fn", "uint32_t spf_$(uint32_t spf_$);\nuint32_t self_$(uint32_t self, uint32_t arg0, uint32_t arg1, uint32_t);"),
    ("underscore_params", "uint32_t und_$(uint32_t _, uint32_t __a, uint32_t _b);"),
    ("many_params", "uint32_t many_$(%s);" % ", ".join("uint32_t p%d" % i for i in range(60))),
    ("deep_ns", "".join("namespace d%d_$ { " % i for i in range(12)) + "struct Dp_$ { uint32_t a; }; uint32_t dpf_$(const Dp_$& d);" + " }" * 12),
    ("same_names_ns", "namespace sa_$ { uint32_t same_$(uint32_t a); } namespace sb_$ { uint32_t same_$(uint32_t a); struct Sbs_$ { uint32_t same_$() const; }; }"),
    ("fn_type_same", "struct fts_$ { uint32_t a; };\nuint32_t fts_$(uint32_t a);"),
    ("var_type_same", "struct vts_$ { uint32_t a; };\nextern uint32_t vts_$;"),
    ("enumerator_clash", "enum Ecl_$ { Ecl_$_Thing };\nstruct Ecs_$ { uint32_t a; };\nvoid ecl_$(Ecl_$ e);"),
    ("comments", "/// Doc with \"quotes\", \\\\ backslash, `ticks`, {braces}, # hash and */ no\n/// ```\n/// code block\n/// ```\nuint32_t com_$();\n/** block\n * with <b>html</b> & \u00e9\u4f60 */\nstruct Com_$ { /** field doc */ uint32_t a; ///< trailing\n uint32_t b; };\nvoid comr_$(const Com_$& c);"),
    ("latin1", "// caf\udce9 in latin-1\n/// doc caf\udce9\nuint32_t lat_$();"),
    ("crlf", "struct Crl_$ {\r\n  uint32_t a;\r\n};\r\nvoid crlf_$(const Crl_$& c);\r"),
    ("self_alias", "class Sla_$ { public: using Self = Sla_$; Self* me(); };\nclass Slb_$ { public: using Self = Slb_$; Self* me(); };"), ("self_pair", "uint32_t slp_$(uint32_t self, uint32_t self_);"),
    ("value_param", "uint32_t vpn_$(uint32_t None, uint32_t Some);\nconst uint32_t kval_$ = 3;\nuint32_t vpk_$(uint32_t kval_$);"),
    ("cxxbridge_param", "uint32_t cbp_$(uint32_t cxxbridge1_x);\nuint32_t cbq_$(uint32_t cxxbridg);"),
    ("unicode_ident", "uint32_t gr\u00f6\u00dfe_$(uint32_t w);\nstruct St\u00e4rke_$ { uint32_t a; };\nvoid ust_$(const St\u00e4rke_$& s);"),
    ("dollar_ident", "uint32_t dol@$(uint32_t a);".replace("@", "\x00")),
    ("static_assert", "static_assert(sizeof(uint32_t) == 4, \"x\");\nuint32_t sta_$();"),
    ("asm_label", "uint32_t asl_$() __asm__(\"asl_renamed_$\");"),
    ("throwing", "void thr_$() noexcept(false);"),
    ("string_literals", "inline const char* lit_$() { return \"a\\\"b\\\\c\"; }"),
    ("ref_return_chain", "struct Rrc_$ { Rrc_$& set(uint32_t a); const Rrc_$& same() const; Rrc_$& pick(const Rrc_$& a, Rrc_$& b); uint32_t a; };"),
    ("conversion_ctor", "struct Cc_$ { Cc_$(const char* s); Cc_$(std::nullptr_t); Cc_$(std::initializer_list<int> l); template <typename T> Cc_$(T t) {} uint32_t a; };\nvoid ccr_$(const Cc_$& c);"),
    ("nullptr_param", "void npp_$(std::nullptr_t n);"),
    ("va_list", "#include <cstdarg>\nvoid val_$(va_list v);"),
    ("file_ptr", "void fil_$(FILE* f);\nvoid tim_$(struct tm* t, time_t u);"),
    ("ref_qualified", "struct Rq_$ { uint32_t l() &; uint32_t r() &&; uint32_t c() const &; };"),
    ("volatile_method", "struct Vm_$ { uint32_t v() volatile; uint32_t w() const volatile; uint32_t c() const; };"),
    ("method_templates", "struct Mt_$ { template <typename T> void put(T t) {} template <typename T> static T mk() { return T(); } uint32_t c() const; };"),
    ("final_class", "struct Fc_$ final { virtual uint32_t v() const; uint32_t c() const; };\nvoid fcr_$(const Fc_$& f);"),
    ("pure_dtor", "struct Pd_$ { virtual ~Pd_$() = 0; uint32_t c() const; };\nvoid pdr_$(const Pd_$& f);"),
    ("empty", "struct Em_$ {};\nEm_$ emv_$(Em_$ e);\nvoid emr_$(const Em_$& e);"),
    ("extern_template_fn", "template <typename T> uint32_t etf_$(const std::vector<T>& v) { return v.size(); }\nextern template uint32_t etf_$<int>(const std::vector<int>&);"),
    ("decltype", "extern uint32_t dty_$;\ndecltype(dty_$) dtf_$(decltype(dty_$) a);"),
    ("using_enum_alias", "enum class Uea_$ { A, B };\nusing Ueb_$ = Uea_$;\nUeb_$ uef_$(Ueb_$ a);"),
    ("opaque_handle", "typedef struct Oh_$_* Oh_$;\nOh_$ oho_$();\nvoid ohc_$(Oh_$ h);"),
    ("void_ptr", "void* vpr_$(const void* p, void** q);"),
    ("const_value_params", "uint32_t cvp_$(const uint32_t a, const std::string s, const char* const c);"),
    ("fn_returning_ref_to_array", "const uint32_t (&fra_$())[3];"),
    ("complex_ptrs", "uint32_t (*(*cfp_$)(uint32_t))(const char*);\nvoid cfq_$(void (*a)(void (*)(int)));".replace("uint32_t (*(*cfp_$)", "extern uint32_t (*(*cfp_$)")),
]

# Constructs as members of an otherwise ordinary class
METHODS = [
    ("m_variadic", "int mvar(int n, ...);"), ("m_fnptr", "void mfp(void (*cb)(int));"), ("m_fnptr_ret", "void (*mfr())(int);"), ("m_template", "template <typename T> T mt(T t) { return t; }"),
    ("m_rvalue", "uint32_t mrv(std::string&& s);"), ("m_rvalue_ret", "std::string&& mrr();"), ("m_arrayref", "void mar(uint32_t (&a)[4]);"), ("m_map", "std::map<int, int> mmap() const;"),
    ("m_function", "void mfn(std::function<void()> f);"), ("m_opcall", "uint32_t operator()(int a) const;"), ("m_opidx", "uint32_t operator[](size_t a) const;"), ("m_conv", "operator uint32_t() const;"),
    ("m_opeq", "bool operator==(const CLS& o) const;"), ("m_opassign", "CLS& operator=(const CLS& o);"), ("m_opplus", "CLS operator+(const CLS& o) const;"), ("m_refq", "uint32_t mrq() &&;"),
    ("m_volatile", "uint32_t mvo() volatile;"), ("m_du", "uint32_t m__du() const;"), ("m_deleted", "void mdel() = delete;"), ("m_private", "private: uint32_t mpriv() const; public:"),
    ("m_protected", "protected: uint32_t mprot() const; public:"), ("m_int128", "__int128 m128(__int128 a) const;"), ("m_longdouble", "long double mld() const;"), ("m_wchar", "wchar_t mwc() const;"),
    ("m_self_value", "CLS mself(CLS o) const;"), ("m_static_self", "static CLS& minst();"), ("m_ptrptr", "void mpp(CLS** p) const;"), ("m_memptr", "void mmp(uint32_t (CLS::*f)() const) const;"),
    ("m_nested_enum", "enum class MKind { A, B }; MKind mkind(MKind k) const;"), ("m_nested_struct", "struct MIn { uint32_t q; }; MIn min_() const; void mtake(const MIn& i);"), ("m_typedef", "typedef std::vector<CLS*> MVec; void mvec(const MVec& v);"),
    ("m_union", "union MUn { int a; float b; }; MUn mun() const;"), ("m_anon_union_field", "union { uint32_t ua; float ub; };"), ("m_bitfield_field", "uint32_t bf : 5;"), ("m_array_field", "uint8_t af[7];"),
    ("m_fnptr_field", "void (*fpf)(int) = nullptr;"), ("m_static_field", "static uint32_t sfield;"), ("m_constexpr_field", "static constexpr uint32_t CF = 4;"), ("m_map_ptr_field", "std::map<int, int>* mpf = nullptr;"),
    ("m_friend", "friend uint32_t friendly(const CLS& c);"), ("m_virtual", "virtual uint32_t mvirt() const;"), ("m_keyword", "uint32_t impl(uint32_t type) const;"), ("m_keyword2", "uint32_t match() const; uint32_t loop_() const; void fn(); static uint32_t mod();"),
    ("m_self_arg", "uint32_t mselfarg(uint32_t self, uint32_t this_) const;"), ("m_std_nested", "std::vector<std::vector<int>> mvv() const;"), ("m_ctor_template", "template <typename T> CLS(T* t, int) {}"), ("m_ctor_fnptr", "CLS(void (*f)(int));"),
    ("m_ctor_variadic", "CLS(const char* f, ...);"), ("m_ctor_rvalue_vec", "CLS(std::vector<int>&& v);"), ("m_ctor_initlist", "CLS(std::initializer_list<int> l);"), ("m_ctor_map", "explicit CLS(const std::map<int, int>& m);"),
    ("m_default_args", "uint32_t mda(uint32_t a = 1, uint32_t b = 2) const;"), ("m_noexcept", "uint32_t mne() const noexcept;"), ("m_overload_mix", "uint32_t mov(int a) const; uint32_t mov(int (&a)[2]) const; uint32_t mov(const char* a) const;"),
    ("m_static_const_ovl", "static uint32_t sco(int a); uint32_t sco(const char* a) const;"), ("m_const_ovl", "uint32_t& mcv(uint8_t& b); const uint32_t& mcv() const;"), ("m_fwd", "class MFwd; void mfwd(MFwd* f); MFwd& mfwr();"),
    ("m_op_arrow", "CLS* operator->(); CLS& operator*();"), ("m_op_new", "static void* operator new(size_t n); static void operator delete(void* p);"), ("m_using", "using MU = uint32_t; MU mu(MU m) const;"), ("m_vol_field", "volatile uint32_t vf2;"),
    ("m_ref_field_static", "static const std::string& name_();"), ("m_enum_anon", "enum { MA1 = 3, MA2 }; uint32_t mae() const;"),
]

INCLUDES = ["array", "atomic", "cstdarg", "cstddef", "cstdint", "cstdio", "ctime", "deque", "exception", "functional", "initializer_list", "map", "memory", "set", "string", "tuple", "type_traits", "unordered_map", "utility", "vector"]


def free(name, k):
    for n, t in FREE:
        if n == name:
            return t.replace("$", str(k)).replace("\x00", "$")
    raise KeyError(name)

# What each construct gives: it = bound, ty = bound type, ph = placeholder (generate! at the root); nit/nph: the same for generate_ns!
FREE_NAMES = {
    'variadic': {"ph": "var_$", "nph": "var_$"},
    'fnptr_param': {"ph": "fpp_$", "nph": "fpp_$"},
    'fnptr_ret': {"ph": "fpr_$", "nph": "fpr_$"},
    'fnptr_typedef': {"ph": "Cb_$ fpt_$", "nph": "Cb_$ fpt_$"},
    'fnptr_using_ret': {"ph": "Cf_$ fur_$", "nph": "Cf_$ fur_$"},
    'array_param': {"it": "arp_$", "nit": "arp_$"},
    'array_ref': {"ph": "arr_$", "nph": "arr_$"},
    'array_ptr': {"ph": "app_$", "nph": "app_$"},
    'array_typedef': {"it": "Arr_$ art_$", "ph": "art2_$", "nit": "Arr_$ art_$", "nph": "art2_$"},
    'rvalue_ret': {"ty": "Rr_$", "ph": "rvr_$", "nph": "rvr_$"},
    'rvalue_int': {"it": "rvi_$", "nit": "rvi_$"},
    'const_rvalue': {"it": "crv_$", "ty": "Cr_$", "nit": "crv_$"},
    'union': {"it": "unp_$ unr_$ unv_$", "ty": "Un_$", "nit": "unp_$ unr_$ unv_$"},
    'union_member': {"it": "umv_$", "ty": "Um_$", "nit": "umv_$"},
    'union_named_member': {"it": "uqr_$", "ty": "Uq_$", "nit": "uqr_$"},
    'nontrivial_union': {"it": "nur_$", "ty": "Nu_$", "nit": "nur_$"},
    'template_fn': {},
    'template_class': {"it": "tcm_$ tcr_$ tcv_$", "ty": "Tc_$", "nit": "tcm_$ tcr_$ tcv_$"},
    'template_typedef': {"it": "Tti_$ ttr_$ ttv_$", "ty": "Tt_$", "nit": "Tti_$ ttr_$ ttv_$"},
    'template_default': {"ph": "tdr_$", "nph": "tdr_$"},
    'template_variadic': {"ph": "Tv_$ tvr_$", "nph": "Tv_$ tvr_$"},
    'template_spec': {"it": "tsr_$", "ty": "Ts_$", "nit": "tsr_$"},
    'template_template': {"ty": "Tp_$ Tq_$", "ph": "tpr_$", "nph": "tpr_$"},
    'template_alias': {"it": "tar_$", "ph": "Ta_$", "nit": "tar_$", "nph": "Ta_$"},
    'template_dependent': {"it": "dev_$", "ty": "Dt_$", "ph": "De_$ der_$", "nit": "dev_$", "nph": "De_$ der_$"},
    'template_inner': {"it": "tie_$ tir_$", "ph": "Ti_$", "nit": "tie_$ tir_$", "nph": "Ti_$"},
    'crtp': {"it": "cdr_$", "ty": "Cd_$", "ph": "Crtp_$", "nit": "cdr_$", "nph": "Crtp_$"},
    'sfinae': {},
    'explicit_inst': {"it": "eir_$", "ty": "Ei_$", "nit": "eir_$"},
    'anon_ns': {"it": "ansu_$", "nit": "ansu_$"},
    'anon_struct_typedef': {"it": "asr_$", "ty": "As_$", "nit": "asr_$"},
    'anon_struct_var': {"ph": "asv_$", "nph": "asv_$"},
    'anon_enum': {"it": "aeu_$", "nit": "aeu_$"},
    'anon_enum_member': {"it": "aemr_$", "ty": "Aem_$", "nit": "aemr_$"},
    'double_underscore_fn': {"ph": "__lead_$ du__fn_$ trail_$__", "nph": "__lead_$ du__fn_$ trail_$__"},
    'double_underscore_type': {"ph": "Du__T_$ dut_$ duv_$", "nph": "Du__T_$ dut_$ duv_$"},
    'leading_underscore': {"it": "_lu_$ lur_$", "ty": "_Lu_$", "nit": "_lu_$ lur_$"},
    'fwd_only': {"it": "Fw_$ fwp_$", "ph": "fwr_$ fwu_$", "nit": "Fw_$ fwp_$", "nph": "fwr_$ fwu_$"},
    'fwd_by_value': {"it": "Fv_$", "ph": "fvr_$ fvv_$", "nit": "Fv_$", "nph": "fvr_$ fvv_$"},
    'fwd_nested': {"ty": "Fn_$"},
    'bitfield': {"it": "bfr_$ bfv_$", "ty": "Bf_$", "nit": "bfr_$ bfv_$"},
    'bitfield_zero': {"it": "bzr_$", "ty": "Bz_$", "nit": "bzr_$"},
    'operators': {"ty": "Op_$"},
    'op_new': {"it": "onr_$", "ty": "On_$", "nit": "onr_$"},
    'user_literal': {},
    'std_function': {"ph": "sfn_$ sfr_$", "nph": "sfn_$ sfr_$"},
    'std_map': {"ph": "smp_$ smr_$", "nph": "smp_$ smr_$"},
    'std_pair': {"it": "spr_$", "ph": "spt_$", "nit": "spr_$", "nph": "spt_$"},
    'std_array': {"ph": "sap_$ sar_$", "nph": "sap_$ sar_$"},
    'std_misc': {"it": "smi_$", "ph": "smd_$ smu_$ smw_$", "nit": "smi_$", "nph": "smd_$ smu_$ smw_$"},
    'std_nested': {"it": "sns_$", "ph": "snm_$ snu_$ snv_$", "nit": "sns_$", "nph": "snm_$ snu_$ snv_$"},
    'std_up_deleter': {"ty": "Dl_$", "ph": "sud_$", "nph": "sud_$"},
    'std_atomic': {"it": "satr_$", "ty": "Sat_$", "nit": "satr_$"},
    'std_exception': {"it": "sexr_$", "ty": "Sex_$", "nit": "sexr_$"},
    'long_double': {"ph": "ldr_$", "nph": "ldr_$"},
    'int128': {"ph": "i128_$ u128_$", "nph": "i128_$ u128_$"},
    'wide_chars': {"it": "c32_$ wc_$ wcp_$", "ph": "c16_$ c16p_$", "nit": "c32_$ wc_$ wcp_$", "nph": "c16_$ c16p_$"},
    'bool_ptr': {"it": "bp_$ br_$", "nit": "bp_$ br_$"},
    'ptr_ptr': {"ph": "pp_$ ppc_$ ppk_$ ppp_$", "nph": "pp_$ ppc_$ ppk_$ ppp_$"},
    'ref_ptr': {"it": "rpr_$", "ty": "Rp_$", "ph": "rpk_$", "nit": "rpr_$", "nph": "rpk_$"},
    'member_ptr': {"it": "mpd_$", "ty": "Mp_$", "ph": "mpf_$", "nit": "mpd_$", "nph": "mpf_$"},
    'volatile': {"it": "vol_$ volr_$", "ty": "Vo_$", "nit": "vol_$ volr_$"},
    'restrict': {"it": "rst_$", "nit": "rst_$"},
    'default_args': {"it": "da_$", "nit": "da_$"},
    'constexpr': {"it": "CX_$ cx_$", "nit": "CX_$ cx_$"},
    'noexcept': {"it": "ne_$ nt_$", "nit": "ne_$ nt_$"},
    'attributes': {"it": "dep_$ mnu_$ nor_$ vis_$", "nit": "dep_$ mnu_$ nor_$ vis_$"},
    'extern_c': {"it": "ecp_$ exc_$", "ty": "Ec_$", "nit": "ecp_$ exc_$"},
    'static_fn': {},
    'inline_ns': {"it": "ins_$ insr_$", "ty": "Ins_$", "nit": "ins_$ insr_$"},
    'using_decl': {"it": "udr_$", "nit": "udf_$ udr_$"},
    'using_ns': {"it": "unsr_$", "nit": "unsr_$"},
    'ns_alias': {"it": "nar_$", "nit": "nar_$"},
    'friend': {"it": "frf_$", "ty": "Fr_$", "nit": "frf_$"},
    'private_everything': {"ty": "Pe_$", "ph": "per_$", "nph": "per_$"},
    'protected': {"ty": "Pr_$"},
    'deleted': {"ty": "Dd_$", "ph": "ddf_$", "nph": "ddf_$"},
    'deleted_dtor': {"ty": "Dx_$", "ph": "dxr_$", "nph": "dxr_$"},
    'abstract': {"it": "Ab_$ abu_$", "ph": "abr_$", "nit": "Ab_$ abu_$", "nph": "abr_$"},
    'multi_inherit': {"ty": "Ma_$ Mb_$ Mc_$", "ph": "mcr_$", "nph": "mcr_$"},
    'virtual_inherit': {"ty": "Va_$ Vb_$ Vc_$ Vd_$", "ph": "vdr_$", "nph": "vdr_$"},
    'overload_derived': {"ty": "Ob_$ Oc_$", "ph": "ocr_$", "nph": "ocr_$"},
    'inherit_ctors': {"it": "icr_$", "ty": "Ib_$ Ic_$", "nit": "icr_$"},
    'globals': {"it": "gd_$ gk_$", "ty": "Gt_$", "ph": "ga_$ gc_$ gs_$ gstr_$ gt_$ gv_$", "nit": "gd_$ gk_$", "nph": "ga_$ gc_$ gs_$ gstr_$ gt_$ gv_$"},
    'static_members': {"ty": "Sm_$"},
    'macros': {"it": "MBIG_$ MCH_$ MC_$ ME_$ MNEG_$ MS_$ mcr_$", "nit": "mcr_$"},
    'enum_negative': {"it": "En_$ enr_$", "nit": "En_$ enr_$"},
    'enum_dup': {"it": "Ed_$ edr_$", "nit": "Ed_$ edr_$"},
    'enum_wide': {"it": "Ew_$ Ex_$ ewr_$ exr_$", "nit": "Ew_$ Ex_$ ewr_$ exr_$"},
    'enum_bool': {"it": "Ebl_$ ebr_$", "nit": "Ebl_$ ebr_$"},
    'enum_fwd': {"it": "Ef_$ efr_$", "nit": "Ef_$ efr_$"},
    'enum_empty': {"it": "Ee_$ Eg_$ eer_$", "nit": "Ee_$ Eg_$ eer_$"},
    'flexible_array': {"it": "far_$", "ty": "Fa_$", "nit": "far_$"},
    'zero_array': {"it": "zar_$", "ty": "Za_$", "nit": "zar_$"},
    'multi_array': {"it": "mdr_$ mdv_$", "ty": "Mda_$", "nit": "mdr_$ mdv_$"},
    'packed': {"it": "pkr_$ pqv_$", "ty": "Pk_$ Pq_$", "nit": "pkr_$ pqv_$"},
    'alignas': {"it": "alr_$ alv_$", "ty": "Al_$", "nit": "alr_$ alv_$"},
    'ref_member': {"it": "rmr_$", "ty": "Rm_$", "nit": "rmr_$"},
    'const_member': {"it": "cmr_$", "ty": "Cm_$", "nit": "cmr_$"},
    'self_ptr': {"it": "spn_$", "ty": "Sp_$", "nit": "spn_$"},
    'mutual': {"it": "mur_$", "ty": "Mu1_$ Mu2_$", "nit": "mur_$"},
    'typedef_chain': {"it": "T1_$ T2_$ T3_$ T4_$ T5_$ tch_$", "nit": "T1_$ T2_$ T3_$ T4_$ T5_$ tch_$"},
    'typedef_struct': {"it": "Tsx_$ Tsy_$ tsxr_$ tsxv_$", "ty": "tsx_$", "nit": "Tsx_$ Tsy_$ tsxr_$ tsxv_$"},
    'typedef_same': {"it": "tsmr_$", "ty": "Tsm_$", "nit": "tsmr_$"},
    'typedef_fn': {"it": "tfd_$", "ph": "Tfn_$ tfp_$", "nit": "tfd_$", "nph": "Tfn_$ tfp_$"},
    'trailing_return': {"it": "tau_$ tda_$ trr_$", "nit": "tau_$ tda_$ trr_$"},
    'lambda': {"it": "lamu_$", "ph": "lam_$", "nit": "lamu_$", "nph": "lam_$"},
    'nested_classes': {"it": "ner_$", "ty": "Ne_$", "nit": "ner_$"},
    'nested_private': {"ty": "Np_$"},
    'nested_typedef': {"ty": "Nt_$"},
    'local_type_names': {"it": "lnr_$", "ty": "Ln_$", "nit": "lnr_$"},
    'unnamed_params': {"it": "unp2_$ unv2_$", "nit": "unp2_$ unv2_$"},
    'same_param_fn': {"it": "self_$ spf_$", "nit": "self_$ spf_$"},
    'underscore_params': {"ph": "und_$", "nph": "und_$"},
    'many_params': {"it": "many_$", "nit": "many_$"},
    'deep_ns': {"it": "d0_$::d1_$::d2_$::d3_$::d4_$::d5_$::d6_$::d7_$::d8_$::d9_$::d10_$::d11_$::dpf_$", "ty": "d0_$::d1_$::d2_$::d3_$::d4_$::d5_$::d6_$::d7_$::d8_$::d9_$::d10_$::d11_$::Dp_$", "nit": "d0_$::d1_$::d2_$::d3_$::d4_$::d5_$::d6_$::d7_$::d8_$::d9_$::d10_$::d11_$::dpf_$"},
    'same_names_ns': {"it": "sa_$::same_$ sb_$::same_$", "ty": "sb_$::Sbs_$", "nit": "sa_$::same_$ sb_$::same_$"},
    'fn_type_same': {"ph": "fts_$", "nph": "fts_$"},
    'var_type_same': {"ty": "vts_$"},
    'enumerator_clash': {"it": "Ecl_$ ecl_$", "ty": "Ecs_$", "nit": "Ecl_$ ecl_$"},
    'comments': {"it": "com_$ comr_$", "ty": "Com_$", "nit": "com_$ comr_$"},
    'latin1': {"it": "lat_$", "nit": "lat_$"},
    'crlf': {"it": "crlf_$", "ty": "Crl_$", "nit": "crlf_$"},
    'self_alias': {"ty": "Sla_$ Slb_$"},
    'self_pair': {"it": "slp_$", "nit": "slp_$"},
    'value_param': {"it": "vpn_$ vpk_$", "nit": "vpn_$ vpk_$"},
    'cxxbridge_param': {"it": "cbq_$", "nit": "cbq_$", "ph": "cbp_$", "nph": "cbp_$"},
    'unicode_ident': {"it": "größe_$ ust_$", "ty": "Stärke_$", "nit": "größe_$ ust_$"},
    'dollar_ident': {},
    'static_assert': {"it": "sta_$", "nit": "sta_$"},
    'asm_label': {"it": "asl_$", "nit": "asl_$"},
    'throwing': {"it": "thr_$", "nit": "thr_$"},
    'string_literals': {"it": "lit_$", "nit": "lit_$"},
    'ref_return_chain': {"ty": "Rrc_$"},
    'conversion_ctor': {"it": "ccr_$", "ty": "Cc_$", "nit": "ccr_$"},
    'nullptr_param': {"it": "npp_$", "nit": "npp_$"},
    'va_list': {"ph": "val_$"},
    'file_ptr': {"it": "fil_$", "ph": "tim_$", "nit": "fil_$", "nph": "tim_$"},
    'ref_qualified': {"ty": "Rq_$"},
    'volatile_method': {"ty": "Vm_$"},
    'method_templates': {"ty": "Mt_$"},
    'final_class': {"it": "fcr_$", "ty": "Fc_$", "nit": "fcr_$"},
    'pure_dtor': {"it": "Pd_$ pdr_$", "nit": "Pd_$ pdr_$"},
    'empty': {"it": "emr_$ emv_$", "ty": "Em_$", "nit": "emr_$ emv_$"},
    'extern_template_fn': {},
    'decltype': {"it": "dtf_$", "ph": "dty_$", "nit": "dtf_$", "nph": "dty_$"},
    'using_enum_alias': {"it": "Uea_$ Ueb_$ uef_$", "nit": "Uea_$ Ueb_$ uef_$"},
    'opaque_handle': {"it": "Oh_$ Oh_$_ ohc_$ oho_$", "nit": "Oh_$ Oh_$_ ohc_$ oho_$"},
    'void_ptr': {"ph": "vpr_$", "nph": "vpr_$"},
    'const_value_params': {"it": "cvp_$", "nit": "cvp_$"},
    'fn_returning_ref_to_array': {"ph": "fra_$", "nph": "fra_$"},
    'complex_ptrs': {"ph": "cfp_$ cfq_$", "nph": "cfp_$ cfq_$"},
}
FREE_NAMES["std_nested2"] = {"ph": "snh_$ snx_$ sny_$", "nph": "snh_$ snx_$ sny_$", "it": "snz_$", "nit": "snz_$"}
METHOD_PLACEHOLDERS = {
    'm_variadic': 'mvar',
    'm_fnptr': 'mfp',
    'm_fnptr_ret': 'mfr',
    'm_template': '',
    'm_rvalue': '',
    'm_rvalue_ret': 'mrr',
    'm_arrayref': 'mar',
    'm_map': 'mmap',
    'm_function': 'mfn',
    'm_opcall': '',
    'm_opidx': '',
    'm_conv': '',
    'm_opeq': '',
    'm_opassign': '',
    'm_opplus': '',
    'm_refq': '',
    'm_volatile': '',
    'm_du': 'm__du',
    'm_deleted': 'mdel',
    'm_private': 'mpriv',
    'm_protected': '',
    'm_int128': 'm128',
    'm_longdouble': 'mld',
    'm_wchar': '',
    'm_self_value': '',
    'm_static_self': 'minst',
    'm_ptrptr': 'mpp',
    'm_memptr': 'mmp',
    'm_nested_enum': '',
    'm_nested_struct': '',
    'm_typedef': 'mvec',
    'm_union': '',
    'm_anon_union_field': '',
    'm_bitfield_field': '',
    'm_array_field': '',
    'm_fnptr_field': '',
    'm_static_field': '',
    'm_constexpr_field': '',
    'm_map_ptr_field': '',
    'm_friend': '',
    'm_virtual': '',
    'm_keyword': '',
    'm_keyword2': '',
    'm_self_arg': '',
    'm_std_nested': 'mvv',
    'm_ctor_template': '',
    'm_ctor_fnptr': 'new1',
    'm_ctor_variadic': 'new1',
    'm_ctor_rvalue_vec': 'new1',
    'm_ctor_initlist': '',
    'm_ctor_map': 'new1',
    'm_default_args': '',
    'm_noexcept': '',
    'm_overload_mix': 'mov1',
    'm_static_const_ovl': '',
    'm_const_ovl': 'mcv',
    'm_fwd': 'mfwd mfwr',
    'm_op_arrow': '',
    'm_op_new': '',
    'm_using': '',
    'm_vol_field': '',
    'm_ref_field_static': 'Gd_name_',
    'm_enum_anon': '',
}

# Constructs that today's bindings get wrong on their own (see known-findings.txt); kept out of the random mixes
BROKEN = set("""nontrivial_union template_template template_inner wide_chars member_ptr volatile using_decl same_param_fn var_type_same unicode_ident
dollar_ident value_param self_alias self_pair nullptr_param ref_qualified volatile_method""".split())
BROKEN_METHODS = {"m_refq", "m_volatile", "m_wchar"}


def method(name, cls):
    return dict(METHODS)[name].replace("CLS", cls)


def names(name, key, k):
    return FREE_NAMES[name].get(key, "").replace("$", str(k)).split()
