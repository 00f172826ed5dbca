X(ignore) X(lifetime) X(ret0) X(ret1) X(retarg0)
X(new) X(newarr) X(delete) X(deletearr) X(malloc) X(free) X(calloc)
X(memcpy) X(memset) X(memchr) X(memcmp) X(strlen) X(strcmp)
X(abort) X(assertfail) X(terminate) X(purevirt)
X(cxa_allocexn) X(cxa_freeexn) X(cxa_throw) X(cxa_begin) X(cxa_end) X(cxa_rethrow) X(cxa_getptr) X(dyncast) X(badcast)
X(guard_acq) X(guard_rel) X(exc_what)
X(m_sin) X(m_cos) X(m_tan) X(m_exp) X(m_log) X(m_log10) X(m_sqrt) X(m_fabs) X(m_pow) X(m_fmuladd) X(m_floor)
X(umax) X(umin) X(smax) X(smin) X(iabs) X(uaddo) X(usubo) X(umulo) X(saddo) X(ssubo) X(smulo) X(usubsat) X(uaddsat) X(ctlz) X(cttz) X(ctpop) X(fshl) X(fshr) X(bswap)
X(typeid_for) X(trap) X(is_constant) X(isfpclass) X(scmp3)
X(se_real) X(se_u64) X(se_choice) X(se_assume) X(se_assert) X(se_eq) X(snprintf) X(sprintf) X(se_eqw) X(se_eqr) X(se_note) X(se_reach) X(se_heap) X(se_fmt_double) X(se_fmt_i64) X(se_fmt_u64) X(se_token) X(se_token_u64) X(se_stop) X(se_defined) X(se_print) X(se_sym) X(se_reuse)
