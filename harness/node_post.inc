#if defined(C_VALUE)
ENSURES("C03 C01: every operand is evaluated exactly once, from left to right", ORDER)
ENSURES("C02 C20 C07: the result is stored in the caller's slot or the node's own scratch", OWN(*ret_val))
ENSURES("C02 C04: no program-visible cell changes", UNTOUCHED)
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
#ifdef C_RAND
ENSURES("C17: each evaluation draws exactly one number", g_draws == 1)
#ifdef EXPECT
ENSURES("C17: the number is scaled to the integer part of the argument, at least 1", !FIN(V(0)) || SAME_NUMBER(**ret_val, RANDOM(V(0))))
ENSURES("C17: the result lies between 0 and the integer part of the argument, at least 1", !FIN(V(0)) || RANGE_OK(**ret_val, V(0)))
#endif
#elif defined(EXPECT)
ENSURES("C01 C20 C08: the result is the documented function of the operand values", !(GUARD) || SAME(**ret_val, EXPECT))
#endif
#elif defined(C_PRED)
ENSURES("C03 C01: every required operand is evaluated exactly once, from left to right", ORDER)
ENSURES("C02 C20 C07: the result is stored in the caller's slot or the node's own scratch", OWN(*ret_val))
ENSURES("C02 C04: no program-visible cell changes", UNTOUCHED)
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
ENSURES("C01: the result satisfies its documented definition", RESULT_OK)
#elif defined(C_REF)
ENSURES("C03: exactly the required operands are evaluated, in order", ORDER)
ENSURES("C03 C01: the result has the value of the last operand evaluated", SAME(**ret_val, g_v[LAST]))
ENSURES("C03 C04: the result is the reference the last operand yielded", g_byval[LAST] || *ret_val == g_ret[LAST])
ENSURES("C02 C20 C07: a result by value is stored in the caller's slot or the node's own scratch", !g_byval[LAST] || OWN(*ret_val))
ENSURES("C02 C04: no program-visible cell changes", UNTOUCHED)
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
#elif defined(C_ASSIGN)
ENSURES("C03 C04: both operands are evaluated exactly once, from left to right", ORDER)
ENSURES("C04 C03: the result is the reference the target yielded", g_kind[0] >= NW || *ret_val == g_ret[0])
ENSURES("C04 C02: nothing but the target changes", g_kind[0] < NW ? OTHERS_UNTOUCHED(g_ret[0]) : UNTOUCHED)
ENSURES("C02 C20: no other node's storage changes", KUNTOUCHED_EXC(g_ret[0]))
ENSURES("C02 C20 C07: a result which is no reference is stored in scratch", g_kind[0] < NW || OWN(*ret_val) || *ret_val == g_ret[0])
#ifdef EXPECT
ENSURES("C04 C01 C20: the target and result have the assigned value", !(GUARD) || SAME(**ret_val, EXPECT))
#endif
#elif defined(C_MEM)
ENSURES("C03: the index is evaluated exactly once", g_n == 1 && g_log[0] == 0)
ENSURES("C05 C02: the cell is looked up exactly once, in the node's buffer", e_calls == 1 && e_buf == G_buf)
ENSURES("C05 C11: the node's buffer stays the same", ctx->memory_buffer == G_buf)
ENSURES("C05 C01: the cell is that of the index's integer part with the documented tolerance", SAME_CELL(e_index, SPEC_IDX(V(0))))
ENSURES("C05 C04: the result is a reference to the cell if there is one", !e_ret || *ret_val == e_ret)
ENSURES("C05 C01 C04: without a cell the result is the value 0", e_ret || (OWN(*ret_val) && **ret_val == 0))
ENSURES("C02 C05: no program-visible cell changes", UNTOUCHED)
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
#elif defined(C_BLOCK)
ENSURES("C03 C06: the three operands are evaluated exactly once, from left to right", g_n == 3 && g_log[0] == 0 && g_log[1] == 1 && g_log[2] == 2)
ENSURES("C06: exactly one memory operation of the right kind on the node's buffer", e_calls == 1 && e_buf == G_buf && e_index == BLOCKOP)
ENSURES("C06: the memory operation gets the operand values in order", SAME(e_d, g_b4[0]) && SAME(e_s, g_b4[1]) && SAME(e_l, g_b4[2]))
ENSURES("C06 C03: the result is the destination operand", g_byval[0] ? OWN(*ret_val) && SAME(**ret_val, g_v[0]) : *ret_val == g_ret[0])
ENSURES("C02 C06: nothing changes except by the memory operation", UNTOUCHED)
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
#elif defined(C_FREEMBUF)
ENSURES("C03: the operand is evaluated exactly once", g_n == 1 && g_log[0] == 0)
ENSURES("C02 C20 C07: the result is stored in the caller's slot or the node's own scratch", OWN(*ret_val))
ENSURES("C02 C05 C07: no memory is allocated, released or changed", e_calls == 0 && UNTOUCHED && ctx->memory_buffer == G_buf)
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
#elif defined(C_CONST)
ENSURES("C08 C12 C20: the result is the node's constant", OWN(*ret_val) && SAME(**ret_val, g_slot0))
ENSURES("C20 C02 C08: the constant is not changed", SAME(ctx->value, g_slot0))
ENSURES("C20 C04 C02 C08: the result is not a reference to the constant itself", *ret_val == G_slot)
ENSURES("C02: no program-visible cell changes", UNTOUCHED)
#elif defined(C_VAR)
ENSURES("C12 C04 C09: the result is a reference to the node's variable", *ret_val == &VARCELL && ctx->var == &VARCELL)
ENSURES("C02 C20: reading a variable does not change it", SAME(VARCELL, g_slot0))
ENSURES("C02: no program-visible cell changes", UNTOUCHED)
#endif
