// generated once from the list of modelled externals
enum Builtin {
  B__Znwm,
  B__Znam,
  B__ZnwmSt11align_val_t,
  B__ZnwmRKSt9nothrow_t,
  B__ZnamRKSt9nothrow_t,
  B__ZdlPv,
  B__ZdlPvm,
  B__ZdaPv,
  B__ZdaPvm,
  B__ZdlPvRKSt9nothrow_t,
  B__ZdaPvRKSt9nothrow_t,
  B__ZdlPvmSt11align_val_t,
  B__ZdlPvSt11align_val_t,
  B_malloc,
  B_free,
  B_calloc,
  B_memcpy,
  B_memmove,
  B_memset,
  B_memcmp,
  B_bcmp,
  B_strlen,
  B_strcmp,
  B_ceil,
  B_ceilf,
  B_floor,
  B_floorf,
  B_llvm_memcpy,
  B_llvm_memcpy_inline,
  B_llvm_memmove,
  B_llvm_memset,
  B_llvm_lifetime_start,
  B_llvm_lifetime_end,
  B_llvm_invariant_start,
  B_llvm_assume,
  B_llvm_expect,
  B_llvm_ctlz,
  B_llvm_cttz,
  B_llvm_ctpop,
  B_llvm_bswap,
  B_llvm_bitreverse,
  B_llvm_umax,
  B_llvm_umin,
  B_llvm_smax,
  B_llvm_smin,
  B_llvm_abs,
  B_llvm_uadd_with_overflow,
  B_llvm_usub_with_overflow,
  B_llvm_umul_with_overflow,
  B_llvm_sadd_with_overflow,
  B_llvm_ssub_with_overflow,
  B_llvm_smul_with_overflow,
  B_llvm_uadd_sat,
  B_llvm_usub_sat,
  B_llvm_fshl,
  B_llvm_fshr,
  B_llvm_ceil,
  B_llvm_floor,
  B_llvm_fabs,
  B_llvm_fmuladd,
  B_llvm_objectsize,
  B_llvm_trap,
  B_llvm_ubsantrap,
  B_llvm_eh_typeid_for,
  B_llvm_stacksave,
  B_llvm_stackrestore,
  B_llvm_is_constant,
  B_llvm_launder_invariant_group,
  B_llvm_strip_invariant_group,
  B_llvm_experimental_noalias_scope_decl,
  B_llvm_ptrmask,
  B_llvm_threadlocal_address,
  B_llvm_donothing,
  B_llvm_prefetch,
  B_llvm_sideeffect,
  B_llvm_va_start,
  B_llvm_va_end,
  B___cxa_allocate_exception,
  B___cxa_free_exception,
  B___cxa_throw,
  B___cxa_begin_catch,
  B___cxa_end_catch,
  B___cxa_rethrow,
  B___cxa_get_exception_ptr,
  B___cxa_atexit,
  B___cxa_guard_acquire,
  B___cxa_guard_release,
  B___cxa_guard_abort,
  B___cxa_pure_virtual,
  B___gxx_personality_v0,
  B___cxa_throw_bad_array_new_length,
  B__ZSt9terminatev,
  B_abort,
  B_exit,
  B__exit,
  B___assert_fail,
  B__ZSt17__throw_bad_allocv,
  B__ZSt28__throw_bad_array_new_lengthv,
  B__ZSt20__throw_length_errorPKc,
  B__ZSt20__throw_out_of_rangePKc,
  B__ZSt24__throw_out_of_range_fmtPKcz,
  B__ZSt19__throw_logic_errorPKc,
  B__ZSt25__throw_bad_function_callv,
  B__ZNSt9exceptionD2Ev,
  B__ZNSt9exceptionD1Ev,
  B__ZNSt9exceptionD0Ev,
  B__ZNKSt9exception4whatEv,
  B__ZNSt11logic_errorC1EPKc,
  B__ZNSt11logic_errorC2EPKc,
  B__ZNSt11logic_errorD1Ev,
  B__ZNSt11logic_errorD2Ev,
  B__ZNSt12out_of_rangeC1EPKc,
  B__ZNSt12out_of_rangeC2EPKc,
  B__ZNSt12out_of_rangeD1Ev,
  B__ZNSt12out_of_rangeD2Ev,
  B__ZNSt12out_of_rangeC1ERKS_,
  B__ZNSt12out_of_rangeC2ERKS_,
  B__ZNSt11logic_errorC2ERKS_,
  B__ZNSt13runtime_errorC1EPKc,
  B__ZNSt13runtime_errorC2EPKc,
  B__ZNSt13runtime_errorD1Ev,
  B__ZNSt13runtime_errorD2Ev,
  B__ZNSt9bad_allocD1Ev,
  B__ZNSt9bad_allocD2Ev,
  B__ZNSt8ios_base4InitC1Ev,
  B__ZNSt8ios_base4InitD1Ev,
  B_pthread_mutex_init,
  B_pthread_mutex_destroy,
  B_pthread_mutex_lock,
  B_pthread_mutex_unlock,
  B_pthread_mutexattr_init,
  B_pthread_mutexattr_settype,
  B_pthread_mutexattr_destroy,
  B___pthread_key_create,
  B_sx_int,
  B_sx_u32,
  B_sx_u64,
  B_sx_concretize,
  B_sx_assume,
  B_sx_check,
  B_sx_observe,
  B_sx_reach,
  B_sx_fail,
  B_sx_is_native,
  B_sx_spawn,
  B_sx_join_all,
  NBUILTIN };
static const char* builtinNames[NBUILTIN] = {
  "_Znwm",
  "_Znam",
  "_ZnwmSt11align_val_t",
  "_ZnwmRKSt9nothrow_t",
  "_ZnamRKSt9nothrow_t",
  "_ZdlPv",
  "_ZdlPvm",
  "_ZdaPv",
  "_ZdaPvm",
  "_ZdlPvRKSt9nothrow_t",
  "_ZdaPvRKSt9nothrow_t",
  "_ZdlPvmSt11align_val_t",
  "_ZdlPvSt11align_val_t",
  "malloc",
  "free",
  "calloc",
  "memcpy",
  "memmove",
  "memset",
  "memcmp",
  "bcmp",
  "strlen",
  "strcmp",
  "ceil",
  "ceilf",
  "floor",
  "floorf",
  "llvm.memcpy",
  "llvm.memcpy.inline",
  "llvm.memmove",
  "llvm.memset",
  "llvm.lifetime.start",
  "llvm.lifetime.end",
  "llvm.invariant.start",
  "llvm.assume",
  "llvm.expect",
  "llvm.ctlz",
  "llvm.cttz",
  "llvm.ctpop",
  "llvm.bswap",
  "llvm.bitreverse",
  "llvm.umax",
  "llvm.umin",
  "llvm.smax",
  "llvm.smin",
  "llvm.abs",
  "llvm.uadd.with.overflow",
  "llvm.usub.with.overflow",
  "llvm.umul.with.overflow",
  "llvm.sadd.with.overflow",
  "llvm.ssub.with.overflow",
  "llvm.smul.with.overflow",
  "llvm.uadd.sat",
  "llvm.usub.sat",
  "llvm.fshl",
  "llvm.fshr",
  "llvm.ceil",
  "llvm.floor",
  "llvm.fabs",
  "llvm.fmuladd",
  "llvm.objectsize",
  "llvm.trap",
  "llvm.ubsantrap",
  "llvm.eh.typeid.for",
  "llvm.stacksave",
  "llvm.stackrestore",
  "llvm.is.constant",
  "llvm.launder.invariant.group",
  "llvm.strip.invariant.group",
  "llvm.experimental.noalias.scope.decl",
  "llvm.ptrmask",
  "llvm.threadlocal.address",
  "llvm.donothing",
  "llvm.prefetch",
  "llvm.sideeffect",
  "llvm.va_start",
  "llvm.va_end",
  "__cxa_allocate_exception",
  "__cxa_free_exception",
  "__cxa_throw",
  "__cxa_begin_catch",
  "__cxa_end_catch",
  "__cxa_rethrow",
  "__cxa_get_exception_ptr",
  "__cxa_atexit",
  "__cxa_guard_acquire",
  "__cxa_guard_release",
  "__cxa_guard_abort",
  "__cxa_pure_virtual",
  "__gxx_personality_v0",
  "__cxa_throw_bad_array_new_length",
  "_ZSt9terminatev",
  "abort",
  "exit",
  "_exit",
  "__assert_fail",
  "_ZSt17__throw_bad_allocv",
  "_ZSt28__throw_bad_array_new_lengthv",
  "_ZSt20__throw_length_errorPKc",
  "_ZSt20__throw_out_of_rangePKc",
  "_ZSt24__throw_out_of_range_fmtPKcz",
  "_ZSt19__throw_logic_errorPKc",
  "_ZSt25__throw_bad_function_callv",
  "_ZNSt9exceptionD2Ev",
  "_ZNSt9exceptionD1Ev",
  "_ZNSt9exceptionD0Ev",
  "_ZNKSt9exception4whatEv",
  "_ZNSt11logic_errorC1EPKc",
  "_ZNSt11logic_errorC2EPKc",
  "_ZNSt11logic_errorD1Ev",
  "_ZNSt11logic_errorD2Ev",
  "_ZNSt12out_of_rangeC1EPKc",
  "_ZNSt12out_of_rangeC2EPKc",
  "_ZNSt12out_of_rangeD1Ev",
  "_ZNSt12out_of_rangeD2Ev",
  "_ZNSt12out_of_rangeC1ERKS_",
  "_ZNSt12out_of_rangeC2ERKS_",
  "_ZNSt11logic_errorC2ERKS_",
  "_ZNSt13runtime_errorC1EPKc",
  "_ZNSt13runtime_errorC2EPKc",
  "_ZNSt13runtime_errorD1Ev",
  "_ZNSt13runtime_errorD2Ev",
  "_ZNSt9bad_allocD1Ev",
  "_ZNSt9bad_allocD2Ev",
  "_ZNSt8ios_base4InitC1Ev",
  "_ZNSt8ios_base4InitD1Ev",
  "pthread_mutex_init",
  "pthread_mutex_destroy",
  "pthread_mutex_lock",
  "pthread_mutex_unlock",
  "pthread_mutexattr_init",
  "pthread_mutexattr_settype",
  "pthread_mutexattr_destroy",
  "__pthread_key_create",
  "sx_int",
  "sx_u32",
  "sx_u64",
  "sx_concretize",
  "sx_assume",
  "sx_check",
  "sx_observe",
  "sx_reach",
  "sx_fail",
  "sx_is_native",
  "sx_spawn",
  "sx_join_all"
};
