"""What decides each property: the operations whose events it owns, the programs, the models."""

SCALAR = ["s_add", "s_sub", "s_mul"]
EDW = ["e_add", "e_sub", "e_neg", "e_dbl", "e_torque", "e_sum"]
TW = ["t_const", "t_iso", "t_un", "t_neg", "t_torque", "t_dbl", "t_add", "t_sub", "t_chain", "t_niels", "t_sel", "t_eq",
      "t_scale", "t_vb", "t_daa", "t_dbsm", "t_aff", "t_aneq", "t_on"]
DECAF = ["d_const", "d_dec", "d_enc", "d_add", "d_sub", "d_neg", "d_mul", "d_eq", "d_ceq", "d_beq", "d_scale", "d_rep"]
FIELD = ["f_lit", "f_const", "f_add", "f_sub", "f_mul", "f_sqr", "f_neg", "f_inv", "f_red", "f_isr", "f_sqrtr", "f_test",
         "f_eq", "f_cneg", "f_sel"]
VIEWS = ["s_lit", "s_can", "s_bytes", "s_rfc", "s_bits", "s_get", "s_set", "s_eq", "s_u32", "s_const"]
EVERY = (SCALAR + ["s_inv", "s_halve", "s_wide", "s_rand", "s_radix"] + VIEWS + EDW +
         ["e_const", "e_dec", "e_enc", "e_mul", "e_mod4", "e_aff", "e_sel", "e_swap", "e_eq", "e_tf", "e_scale", "e_mont"] +
         TW + ["m_lit", "m_gen", "m_mul", "m_low", "m_proj", "m_sel", "m_bytes", "m_eq", "m_wipe"] + DECAF + FIELD + ["r_id", "x_fmt"])

# mode: "trace" (validated against Machine, with these operations owned) or a mode of Observe
PROPS = {
    "C01": dict(owned=SCALAR, models=["Scalars"]),
    "C02": dict(owned=["s_inv", "s_halve"], models=["Scalars", "Params"]),
    "C03": dict(owned=VIEWS, models=["Scalars"]),
    "C04": dict(owned=["s_wide", "s_rand"], models=["Scalars"]),
    "C05": dict(owned=EDW, models=["Curve"]),
    "C06": dict(owned=["e_mul", "e_mod4", "s_radix"], models=["Curve", "Mul"]),
    "C07": dict(owned=["e_enc", "e_dec", "e_aff"], models=["Codec"]),
    "C08": dict(owned=["e_dec"], models=["Codec"]),
    "C09": dict(owned=["e_tf"], models=["Curve"]),
    "C10": dict(owned=TW, models=["Isogeny", "Mul"]),
    "C11": dict(owned=["m_mul", "m_proj"], models=["Ladder"]),
    "C12": dict(owned=["e_mont", "m_mul", "e_mul", "m_eq"], models=["Ladder"]),
    "C13": dict(owned=["m_low", "m_mul"], models=["Ladder"]),
    "C14": dict(owned=["d_dec", "d_enc"], models=["Decaf"]),
    "C15": dict(owned=DECAF, models=["Decaf"]),
    "C16": dict(owned=DECAF, models=["Decaf"]),
    "C17": dict(mode="pair", models=[]),
    "C18": dict(mode="total", models=[]),
    "C19": dict(owned=FIELD, models=["Limbs"]),
    "C20": dict(owned=EVERY, models=["History", "Logs"]),
    "C21": dict(owned=["s_eq", "e_eq", "t_eq", "m_eq", "d_eq", "d_ceq", "d_beq", "e_sel", "e_swap", "t_sel", "m_sel", "f_sel", "f_eq", "f_cneg"], models=["Decaf"]),
    "C22": dict(mode="group", models=[]),
    "C23": dict(owned=["e_const", "m_gen", "d_const", "s_const", "t_const", "f_const", "r_id", "e_mul", "m_mul", "d_mul", "e_mont", "e_add",
                       "e_sub", "d_add", "d_sub", "s_add", "s_mul", "e_tf", "d_enc", "e_enc", "t_dbsm", "t_iso", "m_bytes", "e_eq", "d_eq", "m_eq"],
                models=["Params"]),
    "C24": dict(mode="leak", models=["Leak"]),
    "C25": dict(owned=EVERY, models=["Threads"], threads=4),
}
