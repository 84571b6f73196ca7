// S22: operations and conversions under trapping policies.
#ifndef VERIF_TRAP_HPP
#define VERIF_TRAP_HPP
#include "conv.hpp"
#include "binop.hpp"
// find operand values for which the operation fails under a throwing policy, or would have to as there is no right result
inline void probe_op(const Row &row, const TD *d, Rng &r, uint64_t n, Stats &st) {
    Case c = to_case(row, d); uint64_t hb = hmix(hstr(c.T.name), hmix(hstr(c.U.name), c.op * 8 + c.pol));
    for (uint64_t i = 0; i < n; ++i) {
        i128 a, b; gen_pair(r, c, a, b); if (i < 9) { i128 x[3] = {c.T.mn, c.T.mx, clampv(0, c.T.mn, c.T.mx)}, y[3] = {c.U.mn, c.U.mx, clampv(0, c.U.mn, c.U.mx)}; a = x[i % 3]; b = y[i / 3]; } if (is_unary(c.op)) b = 1;
        Out o; c.run(a, b, o); ++st.evals; st.nontrivial(h128(h128(hb, a), b));
        if (o.kind == K_ERROR || !model(c, a, b).val_ok) { st.out["op" + std::to_string(c.id)] = describe(c, a, b) + " -> " + show(o); st.cls("operations which can fail"); return; }
    }
    st.cls("operations not seen to fail");
}
inline void probe_conv(int id, const ConvRow &c, const TD *t, Rng &r, uint64_t n, Stats &st) {
    const TD &s = t[c.si], &d = t[c.di];
    for (uint64_t i = 0; i < n; ++i) {
        i128 a = i == 0 ? s.mn : i == 1 ? s.mx : gen_value(r, s.mn, s.mx); Out o; call(c.fn, a, 0, o); ++st.evals;
        if (o.kind == K_ERROR || !fits(a, d.mn, d.mx)) { st.out["cv" + std::to_string(id)] = std::string(form_name[c.form]) + " of " + d.name + " from (" + s.name + ")" + str(a) + " -> " + show(o); st.cls("conversions which can fail"); return; }
    }
    st.cls("conversions not seen to fail");
}
// accepted expressions give the exact value for all operands
inline std::string check_exact(const Case &c, i128 a, i128 b, const Out &o) {
    Exact e = exact(c.op, a, b);
    if (o.kind != K_VALUE) return "not completed under a trapping policy";
    return o.v == e.m ? "" : "wrong value";
}
inline std::string conv_exact(const TD &, const TD &, i128 a, const Out &o) { return o.kind != K_VALUE ? "not completed under a trapping policy" : o.v == a ? "" : "value changed"; }
#endif
