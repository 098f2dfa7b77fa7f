#if defined(W_C01) || defined(W_ALL)
static void c_vec2(Call*c){ glmc_vec2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_add(Call*c){ glmc_vec2_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_addadd(Call*c){ glmc_vec2_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_adds(Call*c){ glmc_vec2_adds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_addsub(Call*c){ glmc_vec2_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_clamp(Call*c){ glmc_vec2_clamp(VOIDP c->p[0], c->f[1], c->f[2]); }
static void c_vec2_complex_conjugate(Call*c){ glmc_vec2_complex_conjugate(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_complex_div(Call*c){ glmc_vec2_complex_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_complex_mul(Call*c){ glmc_vec2_complex_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_copy(Call*c){ glmc_vec2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_cross(Call*c){ c->rf=glmc_vec2_cross(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_distance(Call*c){ c->rf=glmc_vec2_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_distance2(Call*c){ c->rf=glmc_vec2_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_div(Call*c){ glmc_vec2_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_divs(Call*c){ glmc_vec2_divs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_dot(Call*c){ c->rf=glmc_vec2_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_fill(Call*c){ glmc_vec2_fill(VOIDP c->p[0], c->f[1]); }
static void c_vec2_make(Call*c){ glmc_vec2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_maxadd(Call*c){ glmc_vec2_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_maxsub(Call*c){ glmc_vec2_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_maxv(Call*c){ glmc_vec2_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_minadd(Call*c){ glmc_vec2_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_minsub(Call*c){ glmc_vec2_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_minv(Call*c){ glmc_vec2_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_mul(Call*c){ glmc_vec2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_muladd(Call*c){ glmc_vec2_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_muladds(Call*c){ glmc_vec2_muladds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_mulsub(Call*c){ glmc_vec2_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_mulsubs(Call*c){ glmc_vec2_mulsubs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_negate(Call*c){ glmc_vec2_negate(VOIDP c->p[0]); }
static void c_vec2_negate_to(Call*c){ glmc_vec2_negate_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_norm(Call*c){ c->rf=glmc_vec2_norm(VOIDP c->p[0]); }
static void c_vec2_norm2(Call*c){ c->rf=glmc_vec2_norm2(VOIDP c->p[0]); }
static void c_vec2_one(Call*c){ glmc_vec2_one(VOIDP c->p[0]); }
static void c_vec2_scale(Call*c){ glmc_vec2_scale(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_sub(Call*c){ glmc_vec2_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_subadd(Call*c){ glmc_vec2_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_subs(Call*c){ glmc_vec2_subs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_subsub(Call*c){ glmc_vec2_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_zero(Call*c){ glmc_vec2_zero(VOIDP c->p[0]); }
static void c_vec3(Call*c){ glmc_vec3(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_add(Call*c){ glmc_vec3_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_addadd(Call*c){ glmc_vec3_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_adds(Call*c){ glmc_vec3_adds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_addsub(Call*c){ glmc_vec3_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_broadcast(Call*c){ glmc_vec3_broadcast(c->f[0], VOIDP c->p[1]); }
static void c_vec3_clamp(Call*c){ glmc_vec3_clamp(VOIDP c->p[0], c->f[1], c->f[2]); }
static void c_vec3_copy(Call*c){ glmc_vec3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_cross(Call*c){ glmc_vec3_cross(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_distance(Call*c){ c->rf=glmc_vec3_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_distance2(Call*c){ c->rf=glmc_vec3_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_div(Call*c){ glmc_vec3_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_divs(Call*c){ glmc_vec3_divs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_dot(Call*c){ c->rf=glmc_vec3_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_fill(Call*c){ glmc_vec3_fill(VOIDP c->p[0], c->f[1]); }
static void c_vec3_flipsign(Call*c){ glmc_vec3_flipsign(VOIDP c->p[0]); }
static void c_vec3_flipsign_to(Call*c){ glmc_vec3_flipsign_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_hadd(Call*c){ c->rf=glmc_vec3_hadd(VOIDP c->p[0]); }
static void c_vec3_inv(Call*c){ glmc_vec3_inv(VOIDP c->p[0]); }
static void c_vec3_inv_to(Call*c){ glmc_vec3_inv_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_make(Call*c){ glmc_vec3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_maxadd(Call*c){ glmc_vec3_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_maxsub(Call*c){ glmc_vec3_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_maxv(Call*c){ glmc_vec3_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_minadd(Call*c){ glmc_vec3_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_minsub(Call*c){ glmc_vec3_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_minv(Call*c){ glmc_vec3_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_mul(Call*c){ glmc_vec3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_muladd(Call*c){ glmc_vec3_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_muladds(Call*c){ glmc_vec3_muladds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_mulsub(Call*c){ glmc_vec3_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_mulsubs(Call*c){ glmc_vec3_mulsubs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_mulv(Call*c){ glmc_vec3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_negate(Call*c){ glmc_vec3_negate(VOIDP c->p[0]); }
static void c_vec3_negate_to(Call*c){ glmc_vec3_negate_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_norm(Call*c){ c->rf=glmc_vec3_norm(VOIDP c->p[0]); }
static void c_vec3_norm2(Call*c){ c->rf=glmc_vec3_norm2(VOIDP c->p[0]); }
static void c_vec3_norm_inf(Call*c){ c->rf=glmc_vec3_norm_inf(VOIDP c->p[0]); }
static void c_vec3_norm_one(Call*c){ c->rf=glmc_vec3_norm_one(VOIDP c->p[0]); }
static void c_vec3_one(Call*c){ glmc_vec3_one(VOIDP c->p[0]); }
static void c_vec3_scale(Call*c){ glmc_vec3_scale(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_sub(Call*c){ glmc_vec3_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_subadd(Call*c){ glmc_vec3_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_subs(Call*c){ glmc_vec3_subs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_subsub(Call*c){ glmc_vec3_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_zero(Call*c){ glmc_vec3_zero(VOIDP c->p[0]); }
static void c_vec4(Call*c){ glmc_vec4(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_add(Call*c){ glmc_vec4_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_addadd(Call*c){ glmc_vec4_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_adds(Call*c){ glmc_vec4_adds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_addsub(Call*c){ glmc_vec4_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_broadcast(Call*c){ glmc_vec4_broadcast(c->f[0], VOIDP c->p[1]); }
static void c_vec4_clamp(Call*c){ glmc_vec4_clamp(VOIDP c->p[0], c->f[1], c->f[2]); }
static void c_vec4_copy(Call*c){ glmc_vec4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_copy3(Call*c){ glmc_vec4_copy3(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_cubic(Call*c){ glmc_vec4_cubic(c->f[0], VOIDP c->p[1]); }
static void c_vec4_distance(Call*c){ c->rf=glmc_vec4_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_distance2(Call*c){ c->rf=glmc_vec4_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_div(Call*c){ glmc_vec4_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_divs(Call*c){ glmc_vec4_divs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_dot(Call*c){ c->rf=glmc_vec4_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_dup(Call*c){ glmc_vec4_dup(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_dup3(Call*c){ glmc_vec4_dup3(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_fill(Call*c){ glmc_vec4_fill(VOIDP c->p[0], c->f[1]); }
static void c_vec4_flipsign(Call*c){ glmc_vec4_flipsign(VOIDP c->p[0]); }
static void c_vec4_flipsign_to(Call*c){ glmc_vec4_flipsign_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_hadd(Call*c){ c->rf=glmc_vec4_hadd(VOIDP c->p[0]); }
static void c_vec4_inv(Call*c){ glmc_vec4_inv(VOIDP c->p[0]); }
static void c_vec4_inv_to(Call*c){ glmc_vec4_inv_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_make(Call*c){ glmc_vec4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_maxadd(Call*c){ glmc_vec4_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_maxsub(Call*c){ glmc_vec4_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_maxv(Call*c){ glmc_vec4_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_minadd(Call*c){ glmc_vec4_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_minsub(Call*c){ glmc_vec4_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_minv(Call*c){ glmc_vec4_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_mul(Call*c){ glmc_vec4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_muladd(Call*c){ glmc_vec4_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_muladds(Call*c){ glmc_vec4_muladds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_mulsub(Call*c){ glmc_vec4_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_mulsubs(Call*c){ glmc_vec4_mulsubs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_mulv(Call*c){ glmc_vec4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_negate(Call*c){ glmc_vec4_negate(VOIDP c->p[0]); }
static void c_vec4_negate_to(Call*c){ glmc_vec4_negate_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_norm(Call*c){ c->rf=glmc_vec4_norm(VOIDP c->p[0]); }
static void c_vec4_norm2(Call*c){ c->rf=glmc_vec4_norm2(VOIDP c->p[0]); }
static void c_vec4_norm_inf(Call*c){ c->rf=glmc_vec4_norm_inf(VOIDP c->p[0]); }
static void c_vec4_norm_one(Call*c){ c->rf=glmc_vec4_norm_one(VOIDP c->p[0]); }
static void c_vec4_one(Call*c){ glmc_vec4_one(VOIDP c->p[0]); }
static void c_vec4_scale(Call*c){ glmc_vec4_scale(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_sub(Call*c){ glmc_vec4_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_subadd(Call*c){ glmc_vec4_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_subs(Call*c){ glmc_vec4_subs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_subsub(Call*c){ glmc_vec4_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_ucopy(Call*c){ glmc_vec4_ucopy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_zero(Call*c){ glmc_vec4_zero(VOIDP c->p[0]); }
#endif
#if defined(W_C02) || defined(W_ALL)
static void c_ivec2(Call*c){ glmc_ivec2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec2_add(Call*c){ glmc_ivec2_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_addadd(Call*c){ glmc_ivec2_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_addadds(Call*c){ glmc_ivec2_addadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_adds(Call*c){ glmc_ivec2_adds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_addsub(Call*c){ glmc_ivec2_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_addsubs(Call*c){ glmc_ivec2_addsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_clamp(Call*c){ glmc_ivec2_clamp(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_ivec2_copy(Call*c){ glmc_ivec2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec2_cross(Call*c){ c->ri=(int)glmc_ivec2_cross(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec2_distance(Call*c){ c->rf=glmc_ivec2_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec2_distance2(Call*c){ c->ri=(int)glmc_ivec2_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec2_div(Call*c){ glmc_ivec2_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_divs(Call*c){ glmc_ivec2_divs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_dot(Call*c){ c->ri=(int)glmc_ivec2_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec2_fill(Call*c){ glmc_ivec2_fill(VOIDP c->p[0], c->i[1]); }
static void c_ivec2_maxadd(Call*c){ glmc_ivec2_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_maxsub(Call*c){ glmc_ivec2_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_maxv(Call*c){ glmc_ivec2_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_minadd(Call*c){ glmc_ivec2_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_minsub(Call*c){ glmc_ivec2_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_minv(Call*c){ glmc_ivec2_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_mod(Call*c){ glmc_ivec2_mod(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_mul(Call*c){ glmc_ivec2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_muladd(Call*c){ glmc_ivec2_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_muladds(Call*c){ glmc_ivec2_muladds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_mulsub(Call*c){ glmc_ivec2_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_mulsubs(Call*c){ glmc_ivec2_mulsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_one(Call*c){ glmc_ivec2_one(VOIDP c->p[0]); }
static void c_ivec2_scale(Call*c){ glmc_ivec2_scale(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_sub(Call*c){ glmc_ivec2_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_subadd(Call*c){ glmc_ivec2_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_subadds(Call*c){ glmc_ivec2_subadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_subs(Call*c){ glmc_ivec2_subs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_subsub(Call*c){ glmc_ivec2_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec2_subsubs(Call*c){ glmc_ivec2_subsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec2_zero(Call*c){ glmc_ivec2_zero(VOIDP c->p[0]); }
static void c_ivec3(Call*c){ glmc_ivec3(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec3_add(Call*c){ glmc_ivec3_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_addadd(Call*c){ glmc_ivec3_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_addadds(Call*c){ glmc_ivec3_addadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_adds(Call*c){ glmc_ivec3_adds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_addsub(Call*c){ glmc_ivec3_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_addsubs(Call*c){ glmc_ivec3_addsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_clamp(Call*c){ glmc_ivec3_clamp(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_ivec3_copy(Call*c){ glmc_ivec3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec3_distance(Call*c){ c->rf=glmc_ivec3_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec3_distance2(Call*c){ c->ri=(int)glmc_ivec3_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec3_div(Call*c){ glmc_ivec3_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_divs(Call*c){ glmc_ivec3_divs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_dot(Call*c){ c->ri=(int)glmc_ivec3_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec3_fill(Call*c){ glmc_ivec3_fill(VOIDP c->p[0], c->i[1]); }
static void c_ivec3_maxadd(Call*c){ glmc_ivec3_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_maxsub(Call*c){ glmc_ivec3_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_maxv(Call*c){ glmc_ivec3_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_minadd(Call*c){ glmc_ivec3_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_minsub(Call*c){ glmc_ivec3_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_minv(Call*c){ glmc_ivec3_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_mod(Call*c){ glmc_ivec3_mod(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_mul(Call*c){ glmc_ivec3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_muladd(Call*c){ glmc_ivec3_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_muladds(Call*c){ glmc_ivec3_muladds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_mulsub(Call*c){ glmc_ivec3_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_mulsubs(Call*c){ glmc_ivec3_mulsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_norm(Call*c){ c->ri=(int)glmc_ivec3_norm(VOIDP c->p[0]); }
static void c_ivec3_norm2(Call*c){ c->ri=(int)glmc_ivec3_norm2(VOIDP c->p[0]); }
static void c_ivec3_one(Call*c){ glmc_ivec3_one(VOIDP c->p[0]); }
static void c_ivec3_scale(Call*c){ glmc_ivec3_scale(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_sub(Call*c){ glmc_ivec3_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_subadd(Call*c){ glmc_ivec3_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_subadds(Call*c){ glmc_ivec3_subadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_subs(Call*c){ glmc_ivec3_subs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_subsub(Call*c){ glmc_ivec3_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec3_subsubs(Call*c){ glmc_ivec3_subsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec3_zero(Call*c){ glmc_ivec3_zero(VOIDP c->p[0]); }
static void c_ivec4(Call*c){ glmc_ivec4(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_add(Call*c){ glmc_ivec4_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_addadd(Call*c){ glmc_ivec4_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_addadds(Call*c){ glmc_ivec4_addadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_adds(Call*c){ glmc_ivec4_adds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_addsub(Call*c){ glmc_ivec4_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_addsubs(Call*c){ glmc_ivec4_addsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_clamp(Call*c){ glmc_ivec4_clamp(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_ivec4_copy(Call*c){ glmc_ivec4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec4_distance(Call*c){ c->rf=glmc_ivec4_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec4_distance2(Call*c){ c->ri=(int)glmc_ivec4_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec4_maxadd(Call*c){ glmc_ivec4_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_maxsub(Call*c){ glmc_ivec4_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_maxv(Call*c){ glmc_ivec4_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_minadd(Call*c){ glmc_ivec4_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_minsub(Call*c){ glmc_ivec4_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_minv(Call*c){ glmc_ivec4_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_mul(Call*c){ glmc_ivec4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_muladd(Call*c){ glmc_ivec4_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_muladds(Call*c){ glmc_ivec4_muladds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_mulsub(Call*c){ glmc_ivec4_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_mulsubs(Call*c){ glmc_ivec4_mulsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_one(Call*c){ glmc_ivec4_one(VOIDP c->p[0]); }
static void c_ivec4_scale(Call*c){ glmc_ivec4_scale(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_sub(Call*c){ glmc_ivec4_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_subadd(Call*c){ glmc_ivec4_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_subadds(Call*c){ glmc_ivec4_subadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_subs(Call*c){ glmc_ivec4_subs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_subsub(Call*c){ glmc_ivec4_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_ivec4_subsubs(Call*c){ glmc_ivec4_subsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_ivec4_zero(Call*c){ glmc_ivec4_zero(VOIDP c->p[0]); }
#endif
#if defined(W_C02) || defined(W_C03) || defined(W_ALL)
static void c_ivec2_abs(Call*c){ glmc_ivec2_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec2_eq(Call*c){ c->ri=(int)glmc_ivec2_eq(VOIDP c->p[0], c->i[1]); }
static void c_ivec2_eqv(Call*c){ c->ri=(int)glmc_ivec2_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec3_abs(Call*c){ glmc_ivec3_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec3_eq(Call*c){ c->ri=(int)glmc_ivec3_eq(VOIDP c->p[0], c->i[1]); }
static void c_ivec3_eqv(Call*c){ c->ri=(int)glmc_ivec3_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ivec4_abs(Call*c){ glmc_ivec4_abs(VOIDP c->p[0], VOIDP c->p[1]); }
#endif
#if defined(W_C03) || defined(W_ALL)
static void c_vec2_abs(Call*c){ glmc_vec2_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_eq(Call*c){ c->ri=(int)glmc_vec2_eq(VOIDP c->p[0], c->f[1]); }
static void c_vec2_eqv(Call*c){ c->ri=(int)glmc_vec2_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_floor(Call*c){ glmc_vec2_floor(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_fract(Call*c){ glmc_vec2_fract(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_mods(Call*c){ glmc_vec2_mods(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_swizzle(Call*c){ glmc_vec2_swizzle(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_vec3_abs(Call*c){ glmc_vec3_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_eq(Call*c){ c->ri=(int)glmc_vec3_eq(VOIDP c->p[0], c->f[1]); }
static void c_vec3_eq_all(Call*c){ c->ri=(int)glmc_vec3_eq_all(VOIDP c->p[0]); }
static void c_vec3_eq_eps(Call*c){ c->ri=(int)glmc_vec3_eq_eps(VOIDP c->p[0], c->f[1]); }
static void c_vec3_eqv(Call*c){ c->ri=(int)glmc_vec3_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_eqv_eps(Call*c){ c->ri=(int)glmc_vec3_eqv_eps(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_floor(Call*c){ glmc_vec3_floor(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_fract(Call*c){ glmc_vec3_fract(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_isinf(Call*c){ c->ri=(int)glmc_vec3_isinf(VOIDP c->p[0]); }
static void c_vec3_isnan(Call*c){ c->ri=(int)glmc_vec3_isnan(VOIDP c->p[0]); }
static void c_vec3_isvalid(Call*c){ c->ri=(int)glmc_vec3_isvalid(VOIDP c->p[0]); }
static void c_vec3_max(Call*c){ c->rf=glmc_vec3_max(VOIDP c->p[0]); }
static void c_vec3_min(Call*c){ c->rf=glmc_vec3_min(VOIDP c->p[0]); }
static void c_vec3_mods(Call*c){ glmc_vec3_mods(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_sign(Call*c){ glmc_vec3_sign(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_sqrt(Call*c){ glmc_vec3_sqrt(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_swizzle(Call*c){ glmc_vec3_swizzle(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void c_vec4_abs(Call*c){ glmc_vec4_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_eq(Call*c){ c->ri=(int)glmc_vec4_eq(VOIDP c->p[0], c->f[1]); }
static void c_vec4_eq_all(Call*c){ c->ri=(int)glmc_vec4_eq_all(VOIDP c->p[0]); }
static void c_vec4_eq_eps(Call*c){ c->ri=(int)glmc_vec4_eq_eps(VOIDP c->p[0], c->f[1]); }
static void c_vec4_eqv(Call*c){ c->ri=(int)glmc_vec4_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_eqv_eps(Call*c){ c->ri=(int)glmc_vec4_eqv_eps(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_floor(Call*c){ glmc_vec4_floor(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_fract(Call*c){ glmc_vec4_fract(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_isinf(Call*c){ c->ri=(int)glmc_vec4_isinf(VOIDP c->p[0]); }
static void c_vec4_isnan(Call*c){ c->ri=(int)glmc_vec4_isnan(VOIDP c->p[0]); }
static void c_vec4_isvalid(Call*c){ c->ri=(int)glmc_vec4_isvalid(VOIDP c->p[0]); }
static void c_vec4_max(Call*c){ c->rf=glmc_vec4_max(VOIDP c->p[0]); }
static void c_vec4_min(Call*c){ c->rf=glmc_vec4_min(VOIDP c->p[0]); }
static void c_vec4_mods(Call*c){ glmc_vec4_mods(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_sign(Call*c){ glmc_vec4_sign(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_sqrt(Call*c){ glmc_vec4_sqrt(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_swizzle(Call*c){ glmc_vec4_swizzle(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
#endif
#if defined(W_C03) || defined(W_C04) || defined(W_ALL)
static void c_vec2_step(Call*c){ glmc_vec2_step(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_stepr(Call*c){ glmc_vec2_stepr(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_steps(Call*c){ glmc_vec2_steps(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_step(Call*c){ glmc_vec3_step(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_step_uni(Call*c){ glmc_vec3_step_uni(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_stepr(Call*c){ glmc_vec3_stepr(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_steps(Call*c){ glmc_vec3_steps(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_step(Call*c){ glmc_vec4_step(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_step_uni(Call*c){ glmc_vec4_step_uni(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_stepr(Call*c){ glmc_vec4_stepr(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_steps(Call*c){ glmc_vec4_steps(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C04) || defined(W_ALL)
static void c_vec2_lerp(Call*c){ glmc_vec2_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec3_lerp(Call*c){ glmc_vec3_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec3_lerpc(Call*c){ glmc_vec3_lerpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec3_smoothinterp(Call*c){ glmc_vec3_smoothinterp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec3_smoothinterpc(Call*c){ glmc_vec3_smoothinterpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec3_smoothstep(Call*c){ glmc_vec3_smoothstep(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_vec3_smoothstep_uni(Call*c){ glmc_vec3_smoothstep_uni(c->f[0], c->f[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_vec4_lerp(Call*c){ glmc_vec4_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec4_lerpc(Call*c){ glmc_vec4_lerpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec4_smoothinterp(Call*c){ glmc_vec4_smoothinterp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec4_smoothinterpc(Call*c){ glmc_vec4_smoothinterpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec4_smoothstep(Call*c){ glmc_vec4_smoothstep(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_vec4_smoothstep_uni(Call*c){ glmc_vec4_smoothstep_uni(c->f[0], c->f[1], VOIDP c->p[2], VOIDP c->p[3]); }
#endif
#if defined(W_C05) || defined(W_ALL)
static void c_vec2_center(Call*c){ glmc_vec2_center(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_normalize(Call*c){ glmc_vec2_normalize(VOIDP c->p[0]); }
static void c_vec2_normalize_to(Call*c){ glmc_vec2_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec2_reflect(Call*c){ glmc_vec2_reflect(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec2_refract(Call*c){ c->ri=(int)glmc_vec2_refract(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec2_rotate(Call*c){ glmc_vec2_rotate(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec2_scale_as(Call*c){ glmc_vec2_scale_as(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_angle(Call*c){ c->rf=glmc_vec3_angle(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_center(Call*c){ glmc_vec3_center(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_crossn(Call*c){ glmc_vec3_crossn(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_faceforward(Call*c){ glmc_vec3_faceforward(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_vec3_normalize(Call*c){ glmc_vec3_normalize(VOIDP c->p[0]); }
static void c_vec3_normalize_to(Call*c){ glmc_vec3_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_ortho(Call*c){ glmc_vec3_ortho(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec3_proj(Call*c){ glmc_vec3_proj(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_reflect(Call*c){ glmc_vec3_reflect(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_refract(Call*c){ c->ri=(int)glmc_vec3_refract(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec3_rotate(Call*c){ glmc_vec3_rotate(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec3_rotate_m3(Call*c){ glmc_vec3_rotate_m3(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_rotate_m4(Call*c){ glmc_vec3_rotate_m4(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec3_scale_as(Call*c){ glmc_vec3_scale_as(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_vec4_normalize(Call*c){ glmc_vec4_normalize(VOIDP c->p[0]); }
static void c_vec4_normalize_to(Call*c){ glmc_vec4_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_vec4_reflect(Call*c){ glmc_vec4_reflect(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_vec4_refract(Call*c){ c->ri=(int)glmc_vec4_refract(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_vec4_scale_as(Call*c){ glmc_vec4_scale_as(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
#endif
#if defined(W_C06) || defined(W_ALL)
static void c_mat2_copy(Call*c){ glmc_mat2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2_identity(Call*c){ glmc_mat2_identity(VOIDP c->p[0]); }
static void c_mat2_identity_array(Call*c){ glmc_mat2_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void c_mat2_make(Call*c){ glmc_mat2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2_mul(Call*c){ glmc_mat2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat2_mulv(Call*c){ glmc_mat2_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat2_rmc(Call*c){ c->rf=glmc_mat2_rmc(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat2_scale(Call*c){ glmc_mat2_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat2_swap_col(Call*c){ glmc_mat2_swap_col(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_mat2_swap_row(Call*c){ glmc_mat2_swap_row(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_mat2_trace(Call*c){ c->rf=glmc_mat2_trace(VOIDP c->p[0]); }
static void c_mat2_transpose(Call*c){ glmc_mat2_transpose(VOIDP c->p[0]); }
static void c_mat2_transpose_to(Call*c){ glmc_mat2_transpose_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2_zero(Call*c){ glmc_mat2_zero(VOIDP c->p[0]); }
static void c_mat2x3_copy(Call*c){ glmc_mat2x3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2x3_make(Call*c){ glmc_mat2x3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2x3_mul(Call*c){ glmc_mat2x3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat2x3_mulv(Call*c){ glmc_mat2x3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat2x3_scale(Call*c){ glmc_mat2x3_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat2x3_transpose(Call*c){ glmc_mat2x3_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2x3_zero(Call*c){ glmc_mat2x3_zero(VOIDP c->p[0]); }
static void c_mat2x4_copy(Call*c){ glmc_mat2x4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2x4_make(Call*c){ glmc_mat2x4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2x4_mul(Call*c){ glmc_mat2x4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat2x4_mulv(Call*c){ glmc_mat2x4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat2x4_scale(Call*c){ glmc_mat2x4_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat2x4_transpose(Call*c){ glmc_mat2x4_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat2x4_zero(Call*c){ glmc_mat2x4_zero(VOIDP c->p[0]); }
static void c_mat3_copy(Call*c){ glmc_mat3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3_dup(Call*c){ glmc_mat3_dup(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3_identity(Call*c){ glmc_mat3_identity(VOIDP c->p[0]); }
static void c_mat3_identity_array(Call*c){ glmc_mat3_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void c_mat3_make(Call*c){ glmc_mat3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3_mul(Call*c){ glmc_mat3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat3_mulv(Call*c){ glmc_mat3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat3_rmc(Call*c){ c->rf=glmc_mat3_rmc(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat3_scale(Call*c){ glmc_mat3_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat3_swap_col(Call*c){ glmc_mat3_swap_col(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_mat3_swap_row(Call*c){ glmc_mat3_swap_row(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_mat3_trace(Call*c){ c->rf=glmc_mat3_trace(VOIDP c->p[0]); }
static void c_mat3_transpose(Call*c){ glmc_mat3_transpose(VOIDP c->p[0]); }
static void c_mat3_transpose_to(Call*c){ glmc_mat3_transpose_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3_zero(Call*c){ glmc_mat3_zero(VOIDP c->p[0]); }
static void c_mat3x2_copy(Call*c){ glmc_mat3x2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3x2_make(Call*c){ glmc_mat3x2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3x2_mul(Call*c){ glmc_mat3x2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat3x2_mulv(Call*c){ glmc_mat3x2_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat3x2_scale(Call*c){ glmc_mat3x2_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat3x2_transpose(Call*c){ glmc_mat3x2_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3x2_zero(Call*c){ glmc_mat3x2_zero(VOIDP c->p[0]); }
static void c_mat3x4_copy(Call*c){ glmc_mat3x4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3x4_make(Call*c){ glmc_mat3x4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3x4_mul(Call*c){ glmc_mat3x4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat3x4_mulv(Call*c){ glmc_mat3x4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat3x4_scale(Call*c){ glmc_mat3x4_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat3x4_transpose(Call*c){ glmc_mat3x4_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3x4_zero(Call*c){ glmc_mat3x4_zero(VOIDP c->p[0]); }
static void c_mat4_copy(Call*c){ glmc_mat4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_dup(Call*c){ glmc_mat4_dup(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_identity(Call*c){ glmc_mat4_identity(VOIDP c->p[0]); }
static void c_mat4_identity_array(Call*c){ glmc_mat4_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void c_mat4_ins3(Call*c){ glmc_mat4_ins3(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_make(Call*c){ glmc_mat4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_mul(Call*c){ glmc_mat4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat4_mulN(Call*c){ mat4*ms[8]; for(int k=0;k<c->i[1];k++) ms[k]=(mat4*)((float*)c->p[0]+16*(k&3)); glmc_mat4_mulN(ms,(uint32_t)c->i[1],VOIDP c->p[2]); }
static void c_mat4_mulv(Call*c){ glmc_mat4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat4_mulv3(Call*c){ glmc_mat4_mulv3(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_mat4_pick3(Call*c){ glmc_mat4_pick3(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_pick3t(Call*c){ glmc_mat4_pick3t(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_rmc(Call*c){ c->rf=glmc_mat4_rmc(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat4_scale(Call*c){ glmc_mat4_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat4_scale_p(Call*c){ glmc_mat4_scale_p(VOIDP c->p[0], c->f[1]); }
static void c_mat4_swap_col(Call*c){ glmc_mat4_swap_col(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_mat4_swap_row(Call*c){ glmc_mat4_swap_row(VOIDP c->p[0], c->i[1], c->i[2]); }
static void c_mat4_trace(Call*c){ c->rf=glmc_mat4_trace(VOIDP c->p[0]); }
static void c_mat4_trace3(Call*c){ c->rf=glmc_mat4_trace3(VOIDP c->p[0]); }
static void c_mat4_transpose(Call*c){ glmc_mat4_transpose(VOIDP c->p[0]); }
static void c_mat4_transpose_to(Call*c){ glmc_mat4_transpose_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_ucopy(Call*c){ glmc_mat4_ucopy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_udup(Call*c){ glmc_mat4_udup(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_zero(Call*c){ glmc_mat4_zero(VOIDP c->p[0]); }
static void c_mat4x2_copy(Call*c){ glmc_mat4x2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4x2_make(Call*c){ glmc_mat4x2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4x2_mul(Call*c){ glmc_mat4x2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat4x2_mulv(Call*c){ glmc_mat4x2_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat4x2_scale(Call*c){ glmc_mat4x2_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat4x2_transpose(Call*c){ glmc_mat4x2_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4x2_zero(Call*c){ glmc_mat4x2_zero(VOIDP c->p[0]); }
static void c_mat4x3_copy(Call*c){ glmc_mat4x3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4x3_make(Call*c){ glmc_mat4x3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4x3_mul(Call*c){ glmc_mat4x3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat4x3_mulv(Call*c){ glmc_mat4x3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mat4x3_scale(Call*c){ glmc_mat4x3_scale(VOIDP c->p[0], c->f[1]); }
static void c_mat4x3_transpose(Call*c){ glmc_mat4x3_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4x3_zero(Call*c){ glmc_mat4x3_zero(VOIDP c->p[0]); }
#endif
#if defined(W_C07) || defined(W_ALL)
static void c_mat2_det(Call*c){ c->rf=glmc_mat2_det(VOIDP c->p[0]); }
static void c_mat2_inv(Call*c){ glmc_mat2_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat3_det(Call*c){ c->rf=glmc_mat3_det(VOIDP c->p[0]); }
static void c_mat3_inv(Call*c){ glmc_mat3_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_det(Call*c){ c->rf=glmc_mat4_det(VOIDP c->p[0]); }
static void c_mat4_inv(Call*c){ glmc_mat4_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_inv_fast(Call*c){ glmc_mat4_inv_fast(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_inv_precise(Call*c){ glmc_mat4_inv_precise(VOIDP c->p[0], VOIDP c->p[1]); }
#endif
#if defined(W_C08) || defined(W_ALL)
static void c_decompose(Call*c){ glmc_decompose(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_decompose_rs(Call*c){ glmc_decompose_rs(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_decompose_scalev(Call*c){ glmc_decompose_scalev(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_inv_tr(Call*c){ glmc_inv_tr(VOIDP c->p[0]); }
static void c_mul(Call*c){ glmc_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_mul_rot(Call*c){ glmc_mul_rot(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_rotate(Call*c){ glmc_rotate(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotate_at(Call*c){ glmc_rotate_at(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_rotate_atm(Call*c){ glmc_rotate_atm(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_rotate_make(Call*c){ glmc_rotate_make(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotate_x(Call*c){ glmc_rotate_x(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotate_y(Call*c){ glmc_rotate_y(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotate_z(Call*c){ glmc_rotate_z(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotated(Call*c){ glmc_rotated(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotated_at(Call*c){ glmc_rotated_at(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_rotated_x(Call*c){ glmc_rotated_x(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotated_y(Call*c){ glmc_rotated_y(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_rotated_z(Call*c){ glmc_rotated_z(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_scale(Call*c){ glmc_scale(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_scale_make(Call*c){ glmc_scale_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_scale_to(Call*c){ glmc_scale_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_scale_uni(Call*c){ glmc_scale_uni(VOIDP c->p[0], c->f[1]); }
static void c_spin(Call*c){ glmc_spin(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_spinned(Call*c){ glmc_spinned(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_translate(Call*c){ glmc_translate(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_translate_make(Call*c){ glmc_translate_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_translate_to(Call*c){ glmc_translate_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_translate_x(Call*c){ glmc_translate_x(VOIDP c->p[0], c->f[1]); }
static void c_translate_y(Call*c){ glmc_translate_y(VOIDP c->p[0], c->f[1]); }
static void c_translate_z(Call*c){ glmc_translate_z(VOIDP c->p[0], c->f[1]); }
static void c_translated(Call*c){ glmc_translated(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_translated_to(Call*c){ glmc_translated_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_translated_x(Call*c){ glmc_translated_x(VOIDP c->p[0], c->f[1]); }
static void c_translated_y(Call*c){ glmc_translated_y(VOIDP c->p[0], c->f[1]); }
static void c_translated_z(Call*c){ glmc_translated_z(VOIDP c->p[0], c->f[1]); }
static void c_uniscaled(Call*c){ c->ri=(int)glmc_uniscaled(VOIDP c->p[0]); }
#endif
#if defined(W_C09) || defined(W_ALL)
static void c_mat3_textrans(Call*c){ glmc_mat3_textrans(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], VOIDP c->p[5]); }
static void c_mat4_textrans(Call*c){ glmc_mat4_textrans(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], VOIDP c->p[5]); }
static void c_rotate2d(Call*c){ glmc_rotate2d(VOIDP c->p[0], c->f[1]); }
static void c_rotate2d_make(Call*c){ glmc_rotate2d_make(VOIDP c->p[0], c->f[1]); }
static void c_rotate2d_to(Call*c){ glmc_rotate2d_to(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_scale2d(Call*c){ glmc_scale2d(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_scale2d_make(Call*c){ glmc_scale2d_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_scale2d_to(Call*c){ glmc_scale2d_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_scale2d_uni(Call*c){ glmc_scale2d_uni(VOIDP c->p[0], c->f[1]); }
static void c_translate2d(Call*c){ glmc_translate2d(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_translate2d_make(Call*c){ glmc_translate2d_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_translate2d_to(Call*c){ glmc_translate2d_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_translate2d_x(Call*c){ glmc_translate2d_x(VOIDP c->p[0], c->f[1]); }
static void c_translate2d_y(Call*c){ glmc_translate2d_y(VOIDP c->p[0], c->f[1]); }
#endif
#if defined(W_C10) || defined(W_ALL)
static void c_quat(Call*c){ glmc_quat(VOIDP c->p[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void c_quat_add(Call*c){ glmc_quat_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quat_angle(Call*c){ c->rf=glmc_quat_angle(VOIDP c->p[0]); }
static void c_quat_axis(Call*c){ glmc_quat_axis(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_conjugate(Call*c){ glmc_quat_conjugate(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_copy(Call*c){ glmc_quat_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_dot(Call*c){ c->rf=glmc_quat_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_from_vecs(Call*c){ glmc_quat_from_vecs(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quat_identity(Call*c){ glmc_quat_identity(VOIDP c->p[0]); }
static void c_quat_identity_array(Call*c){ glmc_quat_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void c_quat_imag(Call*c){ glmc_quat_imag(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_imaglen(Call*c){ c->rf=glmc_quat_imaglen(VOIDP c->p[0]); }
static void c_quat_imagn(Call*c){ glmc_quat_imagn(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_init(Call*c){ glmc_quat_init(VOIDP c->p[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void c_quat_inv(Call*c){ glmc_quat_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_make(Call*c){ glmc_quat_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_mul(Call*c){ glmc_quat_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quat_norm(Call*c){ c->rf=glmc_quat_norm(VOIDP c->p[0]); }
static void c_quat_normalize(Call*c){ glmc_quat_normalize(VOIDP c->p[0]); }
static void c_quat_normalize_to(Call*c){ glmc_quat_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_real(Call*c){ c->rf=glmc_quat_real(VOIDP c->p[0]); }
static void c_quat_sub(Call*c){ glmc_quat_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quatv(Call*c){ glmc_quatv(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
#endif
#if defined(W_C10) || defined(W_C11) || defined(W_ALL)
static void c_quat_rotatev(Call*c){ glmc_quat_rotatev(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C11) || defined(W_ALL)
static void c_mat3_quat(Call*c){ glmc_mat3_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_mat4_quat(Call*c){ glmc_mat4_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_for(Call*c){ glmc_quat_for(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quat_forp(Call*c){ glmc_quat_forp(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_quat_look(Call*c){ glmc_quat_look(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quat_mat3(Call*c){ glmc_quat_mat3(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_mat3t(Call*c){ glmc_quat_mat3t(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_mat4(Call*c){ glmc_quat_mat4(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_mat4t(Call*c){ glmc_quat_mat4t(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_quat_rotate(Call*c){ glmc_quat_rotate(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quat_rotate_at(Call*c){ glmc_quat_rotate_at(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_quat_rotate_atm(Call*c){ glmc_quat_rotate_atm(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C12) || defined(W_ALL)
static void c_quat_lerp(Call*c){ glmc_quat_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_quat_lerpc(Call*c){ glmc_quat_lerpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_quat_nlerp(Call*c){ glmc_quat_nlerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_quat_slerp(Call*c){ glmc_quat_slerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_quat_slerp_longest(Call*c){ glmc_quat_slerp_longest(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
#endif
#if defined(W_C13) || defined(W_ALL)
static void c_euler(Call*c){ glmc_euler(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_angles(Call*c){ glmc_euler_angles(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_by_order(Call*c){ glmc_euler_by_order(VOIDP c->p[0], (glm_euler_seq)c->i[1], VOIDP c->p[2]); }
static void c_euler_xyz(Call*c){ glmc_euler_xyz(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_xyz_quat(Call*c){ glmc_euler_xyz_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_xzy(Call*c){ glmc_euler_xzy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_xzy_quat(Call*c){ glmc_euler_xzy_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_yxz(Call*c){ glmc_euler_yxz(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_yxz_quat(Call*c){ glmc_euler_yxz_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_yzx(Call*c){ glmc_euler_yzx(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_yzx_quat(Call*c){ glmc_euler_yzx_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_zxy(Call*c){ glmc_euler_zxy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_zxy_quat(Call*c){ glmc_euler_zxy_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_zyx(Call*c){ glmc_euler_zyx(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_euler_zyx_quat(Call*c){ glmc_euler_zyx_quat(VOIDP c->p[0], VOIDP c->p[1]); }
#endif
#if defined(W_C14) || defined(W_ALL)
static void c_look(Call*c){ glmc_look(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_look_anyup(Call*c){ glmc_look_anyup(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_look_anyup_lh_no(Call*c){ glmc_look_anyup_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_look_anyup_lh_zo(Call*c){ glmc_look_anyup_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_look_anyup_rh_no(Call*c){ glmc_look_anyup_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_look_anyup_rh_zo(Call*c){ glmc_look_anyup_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_look_lh_no(Call*c){ glmc_look_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_look_lh_zo(Call*c){ glmc_look_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_look_rh_no(Call*c){ glmc_look_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_look_rh_zo(Call*c){ glmc_look_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_lookat(Call*c){ glmc_lookat(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_lookat_lh_no(Call*c){ glmc_lookat_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_lookat_lh_zo(Call*c){ glmc_lookat_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_lookat_rh_no(Call*c){ glmc_lookat_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_lookat_rh_zo(Call*c){ glmc_lookat_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
#endif
#if defined(W_C15) || defined(W_ALL)
static void c_frustum(Call*c){ glmc_frustum(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_frustum_lh_no(Call*c){ glmc_frustum_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_frustum_lh_zo(Call*c){ glmc_frustum_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_frustum_rh_no(Call*c){ glmc_frustum_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_frustum_rh_zo(Call*c){ glmc_frustum_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_ortho(Call*c){ glmc_ortho(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_ortho_aabb(Call*c){ glmc_ortho_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ortho_aabb_lh_no(Call*c){ glmc_ortho_aabb_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ortho_aabb_lh_zo(Call*c){ glmc_ortho_aabb_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ortho_aabb_p(Call*c){ glmc_ortho_aabb_p(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_p_lh_no(Call*c){ glmc_ortho_aabb_p_lh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_p_lh_zo(Call*c){ glmc_ortho_aabb_p_lh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_p_rh_no(Call*c){ glmc_ortho_aabb_p_rh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_p_rh_zo(Call*c){ glmc_ortho_aabb_p_rh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_pz(Call*c){ glmc_ortho_aabb_pz(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_pz_lh_no(Call*c){ glmc_ortho_aabb_pz_lh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_pz_lh_zo(Call*c){ glmc_ortho_aabb_pz_lh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_pz_rh_no(Call*c){ glmc_ortho_aabb_pz_rh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_pz_rh_zo(Call*c){ glmc_ortho_aabb_pz_rh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_aabb_rh_no(Call*c){ glmc_ortho_aabb_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ortho_aabb_rh_zo(Call*c){ glmc_ortho_aabb_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_ortho_default(Call*c){ glmc_ortho_default(c->f[0], VOIDP c->p[1]); }
static void c_ortho_default_lh_no(Call*c){ glmc_ortho_default_lh_no(c->f[0], VOIDP c->p[1]); }
static void c_ortho_default_lh_zo(Call*c){ glmc_ortho_default_lh_zo(c->f[0], VOIDP c->p[1]); }
static void c_ortho_default_rh_no(Call*c){ glmc_ortho_default_rh_no(c->f[0], VOIDP c->p[1]); }
static void c_ortho_default_rh_zo(Call*c){ glmc_ortho_default_rh_zo(c->f[0], VOIDP c->p[1]); }
static void c_ortho_default_s(Call*c){ glmc_ortho_default_s(c->f[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_default_s_lh_no(Call*c){ glmc_ortho_default_s_lh_no(c->f[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_default_s_lh_zo(Call*c){ glmc_ortho_default_s_lh_zo(c->f[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_default_s_rh_no(Call*c){ glmc_ortho_default_s_rh_no(c->f[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_default_s_rh_zo(Call*c){ glmc_ortho_default_s_rh_zo(c->f[0], c->f[1], VOIDP c->p[2]); }
static void c_ortho_lh_no(Call*c){ glmc_ortho_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_ortho_lh_zo(Call*c){ glmc_ortho_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_ortho_rh_no(Call*c){ glmc_ortho_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_ortho_rh_zo(Call*c){ glmc_ortho_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void c_perspective(Call*c){ glmc_perspective(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void c_perspective_default(Call*c){ glmc_perspective_default(c->f[0], VOIDP c->p[1]); }
static void c_perspective_lh_no(Call*c){ glmc_perspective_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void c_perspective_lh_zo(Call*c){ glmc_perspective_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void c_perspective_rh_no(Call*c){ glmc_perspective_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void c_perspective_rh_zo(Call*c){ glmc_perspective_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
#endif
#if defined(W_C15) || defined(W_C16) || defined(W_ALL)
static void c_perspective_resize(Call*c){ glmc_perspective_resize(c->f[0], VOIDP c->p[1]); }
#endif
#if defined(W_C16) || defined(W_ALL)
static void c_persp_aspect(Call*c){ c->rf=glmc_persp_aspect(VOIDP c->p[0]); }
static void c_persp_aspect_lh_no(Call*c){ c->rf=glmc_persp_aspect_lh_no(VOIDP c->p[0]); }
static void c_persp_aspect_lh_zo(Call*c){ c->rf=glmc_persp_aspect_lh_zo(VOIDP c->p[0]); }
static void c_persp_aspect_rh_no(Call*c){ c->rf=glmc_persp_aspect_rh_no(VOIDP c->p[0]); }
static void c_persp_aspect_rh_zo(Call*c){ c->rf=glmc_persp_aspect_rh_zo(VOIDP c->p[0]); }
static void c_persp_decomp(Call*c){ glmc_persp_decomp(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void c_persp_decomp_far(Call*c){ glmc_persp_decomp_far(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_far_lh_no(Call*c){ glmc_persp_decomp_far_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_far_lh_zo(Call*c){ glmc_persp_decomp_far_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_far_rh_no(Call*c){ glmc_persp_decomp_far_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_far_rh_zo(Call*c){ glmc_persp_decomp_far_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_lh_no(Call*c){ glmc_persp_decomp_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void c_persp_decomp_lh_zo(Call*c){ glmc_persp_decomp_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void c_persp_decomp_near(Call*c){ glmc_persp_decomp_near(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_near_lh_no(Call*c){ glmc_persp_decomp_near_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_near_lh_zo(Call*c){ glmc_persp_decomp_near_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_near_rh_no(Call*c){ glmc_persp_decomp_near_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_near_rh_zo(Call*c){ glmc_persp_decomp_near_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decomp_rh_no(Call*c){ glmc_persp_decomp_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void c_persp_decomp_rh_zo(Call*c){ glmc_persp_decomp_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void c_persp_decomp_x(Call*c){ glmc_persp_decomp_x(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_x_lh_no(Call*c){ glmc_persp_decomp_x_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_x_lh_zo(Call*c){ glmc_persp_decomp_x_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_x_rh_no(Call*c){ glmc_persp_decomp_x_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_x_rh_zo(Call*c){ glmc_persp_decomp_x_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_y(Call*c){ glmc_persp_decomp_y(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_y_lh_no(Call*c){ glmc_persp_decomp_y_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_y_lh_zo(Call*c){ glmc_persp_decomp_y_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_y_rh_no(Call*c){ glmc_persp_decomp_y_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_y_rh_zo(Call*c){ glmc_persp_decomp_y_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_z(Call*c){ glmc_persp_decomp_z(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_z_lh_no(Call*c){ glmc_persp_decomp_z_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_z_lh_zo(Call*c){ glmc_persp_decomp_z_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_z_rh_no(Call*c){ glmc_persp_decomp_z_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decomp_z_rh_zo(Call*c){ glmc_persp_decomp_z_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_persp_decompv(Call*c){ glmc_persp_decompv(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decompv_lh_no(Call*c){ glmc_persp_decompv_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decompv_lh_zo(Call*c){ glmc_persp_decompv_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decompv_rh_no(Call*c){ glmc_persp_decompv_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_decompv_rh_zo(Call*c){ glmc_persp_decompv_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_persp_fovy(Call*c){ c->rf=glmc_persp_fovy(VOIDP c->p[0]); }
static void c_persp_fovy_lh_no(Call*c){ c->rf=glmc_persp_fovy_lh_no(VOIDP c->p[0]); }
static void c_persp_fovy_lh_zo(Call*c){ c->rf=glmc_persp_fovy_lh_zo(VOIDP c->p[0]); }
static void c_persp_fovy_rh_no(Call*c){ c->rf=glmc_persp_fovy_rh_no(VOIDP c->p[0]); }
static void c_persp_fovy_rh_zo(Call*c){ c->rf=glmc_persp_fovy_rh_zo(VOIDP c->p[0]); }
static void c_persp_move_far(Call*c){ glmc_persp_move_far(VOIDP c->p[0], c->f[1]); }
static void c_persp_move_far_lh_no(Call*c){ glmc_persp_move_far_lh_no(VOIDP c->p[0], c->f[1]); }
static void c_persp_move_far_lh_zo(Call*c){ glmc_persp_move_far_lh_zo(VOIDP c->p[0], c->f[1]); }
static void c_persp_move_far_rh_no(Call*c){ glmc_persp_move_far_rh_no(VOIDP c->p[0], c->f[1]); }
static void c_persp_move_far_rh_zo(Call*c){ glmc_persp_move_far_rh_zo(VOIDP c->p[0], c->f[1]); }
static void c_persp_sizes(Call*c){ glmc_persp_sizes(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_persp_sizes_lh_no(Call*c){ glmc_persp_sizes_lh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_persp_sizes_lh_zo(Call*c){ glmc_persp_sizes_lh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_persp_sizes_rh_no(Call*c){ glmc_persp_sizes_rh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void c_persp_sizes_rh_zo(Call*c){ glmc_persp_sizes_rh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
#endif
#if defined(W_C17) || defined(W_ALL)
static void c_pickmatrix(Call*c){ glmc_pickmatrix(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_project(Call*c){ glmc_project(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_project_no(Call*c){ glmc_project_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_project_z(Call*c){ c->rf=glmc_project_z(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_project_z_no(Call*c){ c->rf=glmc_project_z_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_project_z_zo(Call*c){ c->rf=glmc_project_z_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_project_zo(Call*c){ glmc_project_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_unproject(Call*c){ glmc_unproject(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_unprojecti(Call*c){ glmc_unprojecti(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_unprojecti_no(Call*c){ glmc_unprojecti_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_unprojecti_zo(Call*c){ glmc_unprojecti_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
#endif
#if defined(W_C18) || defined(W_ALL)
static void c_aabb_frustum(Call*c){ c->ri=(int)glmc_aabb_frustum(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_frustum_box(Call*c){ glmc_frustum_box(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_frustum_center(Call*c){ glmc_frustum_center(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_frustum_corners(Call*c){ glmc_frustum_corners(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_frustum_corners_at(Call*c){ glmc_frustum_corners_at(VOIDP c->p[0], c->f[1], c->f[2], VOIDP c->p[3]); }
static void c_frustum_planes(Call*c){ glmc_frustum_planes(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_plane_normalize(Call*c){ glmc_plane_normalize(VOIDP c->p[0]); }
#endif
#if defined(W_C19) || defined(W_ALL)
static void c_aabb2d_aabb(Call*c){ c->ri=(int)glmc_aabb2d_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb2d_center(Call*c){ glmc_aabb2d_center(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb2d_circle(Call*c){ c->ri=(int)glmc_aabb2d_circle(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb2d_contains(Call*c){ c->ri=(int)glmc_aabb2d_contains(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb2d_copy(Call*c){ glmc_aabb2d_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb2d_crop(Call*c){ glmc_aabb2d_crop(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_aabb2d_crop_until(Call*c){ glmc_aabb2d_crop_until(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_aabb2d_diag(Call*c){ c->rf=glmc_aabb2d_diag(VOIDP c->p[0]); }
static void c_aabb2d_invalidate(Call*c){ glmc_aabb2d_invalidate(VOIDP c->p[0]); }
static void c_aabb2d_isvalid(Call*c){ c->ri=(int)glmc_aabb2d_isvalid(VOIDP c->p[0]); }
static void c_aabb2d_merge(Call*c){ glmc_aabb2d_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_aabb2d_point(Call*c){ c->ri=(int)glmc_aabb2d_point(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb2d_radius(Call*c){ c->rf=glmc_aabb2d_radius(VOIDP c->p[0]); }
static void c_aabb2d_size(Call*c){ c->rf=glmc_aabb2d_size(VOIDP c->p[0]); }
static void c_aabb2d_sizev(Call*c){ glmc_aabb2d_sizev(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb2d_transform(Call*c){ glmc_aabb2d_transform(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_aabb2d_zero(Call*c){ glmc_aabb2d_zero(VOIDP c->p[0]); }
static void c_aabb_aabb(Call*c){ c->ri=(int)glmc_aabb_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb_center(Call*c){ glmc_aabb_center(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb_contains(Call*c){ c->ri=(int)glmc_aabb_contains(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb_crop(Call*c){ glmc_aabb_crop(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_aabb_crop_until(Call*c){ glmc_aabb_crop_until(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void c_aabb_invalidate(Call*c){ glmc_aabb_invalidate(VOIDP c->p[0]); }
static void c_aabb_isvalid(Call*c){ c->ri=(int)glmc_aabb_isvalid(VOIDP c->p[0]); }
static void c_aabb_merge(Call*c){ glmc_aabb_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_aabb_point(Call*c){ c->ri=(int)glmc_aabb_point(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb_radius(Call*c){ c->rf=glmc_aabb_radius(VOIDP c->p[0]); }
static void c_aabb_size(Call*c){ c->rf=glmc_aabb_size(VOIDP c->p[0]); }
static void c_aabb_sphere(Call*c){ c->ri=(int)glmc_aabb_sphere(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_aabb_transform(Call*c){ glmc_aabb_transform(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C20) || defined(W_ALL)
static void c_ray_at(Call*c){ glmc_ray_at(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void c_ray_sphere(Call*c){ c->ri=(int)glmc_ray_sphere(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4]); }
static void c_ray_triangle(Call*c){ c->ri=(int)glmc_ray_triangle(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5]); }
static void c_sphere_merge(Call*c){ glmc_sphere_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void c_sphere_point(Call*c){ c->ri=(int)glmc_sphere_point(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_sphere_radii(Call*c){ c->rf=glmc_sphere_radii(VOIDP c->p[0]); }
static void c_sphere_sphere(Call*c){ c->ri=(int)glmc_sphere_sphere(VOIDP c->p[0], VOIDP c->p[1]); }
static void c_sphere_transform(Call*c){ glmc_sphere_transform(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C21) || defined(W_ALL)
static void c_bezier(Call*c){ c->rf=glmc_bezier(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void c_decasteljau(Call*c){ c->rf=glmc_decasteljau(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void c_ease_back_in(Call*c){ c->rf=glmc_ease_back_in(c->f[0]); }
static void c_ease_back_inout(Call*c){ c->rf=glmc_ease_back_inout(c->f[0]); }
static void c_ease_back_out(Call*c){ c->rf=glmc_ease_back_out(c->f[0]); }
static void c_ease_bounce_in(Call*c){ c->rf=glmc_ease_bounce_in(c->f[0]); }
static void c_ease_bounce_inout(Call*c){ c->rf=glmc_ease_bounce_inout(c->f[0]); }
static void c_ease_bounce_out(Call*c){ c->rf=glmc_ease_bounce_out(c->f[0]); }
static void c_ease_circ_in(Call*c){ c->rf=glmc_ease_circ_in(c->f[0]); }
static void c_ease_circ_inout(Call*c){ c->rf=glmc_ease_circ_inout(c->f[0]); }
static void c_ease_circ_out(Call*c){ c->rf=glmc_ease_circ_out(c->f[0]); }
static void c_ease_cubic_in(Call*c){ c->rf=glmc_ease_cubic_in(c->f[0]); }
static void c_ease_cubic_inout(Call*c){ c->rf=glmc_ease_cubic_inout(c->f[0]); }
static void c_ease_cubic_out(Call*c){ c->rf=glmc_ease_cubic_out(c->f[0]); }
static void c_ease_elast_in(Call*c){ c->rf=glmc_ease_elast_in(c->f[0]); }
static void c_ease_elast_inout(Call*c){ c->rf=glmc_ease_elast_inout(c->f[0]); }
static void c_ease_elast_out(Call*c){ c->rf=glmc_ease_elast_out(c->f[0]); }
static void c_ease_exp_in(Call*c){ c->rf=glmc_ease_exp_in(c->f[0]); }
static void c_ease_exp_inout(Call*c){ c->rf=glmc_ease_exp_inout(c->f[0]); }
static void c_ease_exp_out(Call*c){ c->rf=glmc_ease_exp_out(c->f[0]); }
static void c_ease_linear(Call*c){ c->rf=glmc_ease_linear(c->f[0]); }
static void c_ease_quad_in(Call*c){ c->rf=glmc_ease_quad_in(c->f[0]); }
static void c_ease_quad_inout(Call*c){ c->rf=glmc_ease_quad_inout(c->f[0]); }
static void c_ease_quad_out(Call*c){ c->rf=glmc_ease_quad_out(c->f[0]); }
static void c_ease_quart_in(Call*c){ c->rf=glmc_ease_quart_in(c->f[0]); }
static void c_ease_quart_inout(Call*c){ c->rf=glmc_ease_quart_inout(c->f[0]); }
static void c_ease_quart_out(Call*c){ c->rf=glmc_ease_quart_out(c->f[0]); }
static void c_ease_quint_in(Call*c){ c->rf=glmc_ease_quint_in(c->f[0]); }
static void c_ease_quint_inout(Call*c){ c->rf=glmc_ease_quint_inout(c->f[0]); }
static void c_ease_quint_out(Call*c){ c->rf=glmc_ease_quint_out(c->f[0]); }
static void c_ease_sine_in(Call*c){ c->rf=glmc_ease_sine_in(c->f[0]); }
static void c_ease_sine_inout(Call*c){ c->rf=glmc_ease_sine_inout(c->f[0]); }
static void c_ease_sine_out(Call*c){ c->rf=glmc_ease_sine_out(c->f[0]); }
static void c_hermite(Call*c){ c->rf=glmc_hermite(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void c_smc(Call*c){ c->rf=glmc_smc(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C22) || defined(W_ALL)
static void c_perlin_vec2(Call*c){ c->rf=glmc_perlin_vec2(VOIDP c->p[0]); }
static void c_perlin_vec3(Call*c){ c->rf=glmc_perlin_vec3(VOIDP c->p[0]); }
static void c_perlin_vec4(Call*c){ c->rf=glmc_perlin_vec4(VOIDP c->p[0]); }
#endif
static const WEntry table_c[]={
#if defined(W_C01) || defined(W_ALL)
{"vec2",c_vec2},
{"vec2_add",c_vec2_add},
{"vec2_addadd",c_vec2_addadd},
{"vec2_adds",c_vec2_adds},
{"vec2_addsub",c_vec2_addsub},
{"vec2_clamp",c_vec2_clamp},
{"vec2_complex_conjugate",c_vec2_complex_conjugate},
{"vec2_complex_div",c_vec2_complex_div},
{"vec2_complex_mul",c_vec2_complex_mul},
{"vec2_copy",c_vec2_copy},
{"vec2_cross",c_vec2_cross},
{"vec2_distance",c_vec2_distance},
{"vec2_distance2",c_vec2_distance2},
{"vec2_div",c_vec2_div},
{"vec2_divs",c_vec2_divs},
{"vec2_dot",c_vec2_dot},
{"vec2_fill",c_vec2_fill},
{"vec2_make",c_vec2_make},
{"vec2_maxadd",c_vec2_maxadd},
{"vec2_maxsub",c_vec2_maxsub},
{"vec2_maxv",c_vec2_maxv},
{"vec2_minadd",c_vec2_minadd},
{"vec2_minsub",c_vec2_minsub},
{"vec2_minv",c_vec2_minv},
{"vec2_mul",c_vec2_mul},
{"vec2_muladd",c_vec2_muladd},
{"vec2_muladds",c_vec2_muladds},
{"vec2_mulsub",c_vec2_mulsub},
{"vec2_mulsubs",c_vec2_mulsubs},
{"vec2_negate",c_vec2_negate},
{"vec2_negate_to",c_vec2_negate_to},
{"vec2_norm",c_vec2_norm},
{"vec2_norm2",c_vec2_norm2},
{"vec2_one",c_vec2_one},
{"vec2_scale",c_vec2_scale},
{"vec2_sub",c_vec2_sub},
{"vec2_subadd",c_vec2_subadd},
{"vec2_subs",c_vec2_subs},
{"vec2_subsub",c_vec2_subsub},
{"vec2_zero",c_vec2_zero},
{"vec3",c_vec3},
{"vec3_add",c_vec3_add},
{"vec3_addadd",c_vec3_addadd},
{"vec3_adds",c_vec3_adds},
{"vec3_addsub",c_vec3_addsub},
{"vec3_broadcast",c_vec3_broadcast},
{"vec3_clamp",c_vec3_clamp},
{"vec3_copy",c_vec3_copy},
{"vec3_cross",c_vec3_cross},
{"vec3_distance",c_vec3_distance},
{"vec3_distance2",c_vec3_distance2},
{"vec3_div",c_vec3_div},
{"vec3_divs",c_vec3_divs},
{"vec3_dot",c_vec3_dot},
{"vec3_fill",c_vec3_fill},
{"vec3_flipsign",c_vec3_flipsign},
{"vec3_flipsign_to",c_vec3_flipsign_to},
{"vec3_hadd",c_vec3_hadd},
{"vec3_inv",c_vec3_inv},
{"vec3_inv_to",c_vec3_inv_to},
{"vec3_make",c_vec3_make},
{"vec3_maxadd",c_vec3_maxadd},
{"vec3_maxsub",c_vec3_maxsub},
{"vec3_maxv",c_vec3_maxv},
{"vec3_minadd",c_vec3_minadd},
{"vec3_minsub",c_vec3_minsub},
{"vec3_minv",c_vec3_minv},
{"vec3_mul",c_vec3_mul},
{"vec3_muladd",c_vec3_muladd},
{"vec3_muladds",c_vec3_muladds},
{"vec3_mulsub",c_vec3_mulsub},
{"vec3_mulsubs",c_vec3_mulsubs},
{"vec3_mulv",c_vec3_mulv},
{"vec3_negate",c_vec3_negate},
{"vec3_negate_to",c_vec3_negate_to},
{"vec3_norm",c_vec3_norm},
{"vec3_norm2",c_vec3_norm2},
{"vec3_norm_inf",c_vec3_norm_inf},
{"vec3_norm_one",c_vec3_norm_one},
{"vec3_one",c_vec3_one},
{"vec3_scale",c_vec3_scale},
{"vec3_sub",c_vec3_sub},
{"vec3_subadd",c_vec3_subadd},
{"vec3_subs",c_vec3_subs},
{"vec3_subsub",c_vec3_subsub},
{"vec3_zero",c_vec3_zero},
{"vec4",c_vec4},
{"vec4_add",c_vec4_add},
{"vec4_addadd",c_vec4_addadd},
{"vec4_adds",c_vec4_adds},
{"vec4_addsub",c_vec4_addsub},
{"vec4_broadcast",c_vec4_broadcast},
{"vec4_clamp",c_vec4_clamp},
{"vec4_copy",c_vec4_copy},
{"vec4_copy3",c_vec4_copy3},
{"vec4_cubic",c_vec4_cubic},
{"vec4_distance",c_vec4_distance},
{"vec4_distance2",c_vec4_distance2},
{"vec4_div",c_vec4_div},
{"vec4_divs",c_vec4_divs},
{"vec4_dot",c_vec4_dot},
{"vec4_dup",c_vec4_dup},
{"vec4_dup3",c_vec4_dup3},
{"vec4_fill",c_vec4_fill},
{"vec4_flipsign",c_vec4_flipsign},
{"vec4_flipsign_to",c_vec4_flipsign_to},
{"vec4_hadd",c_vec4_hadd},
{"vec4_inv",c_vec4_inv},
{"vec4_inv_to",c_vec4_inv_to},
{"vec4_make",c_vec4_make},
{"vec4_maxadd",c_vec4_maxadd},
{"vec4_maxsub",c_vec4_maxsub},
{"vec4_maxv",c_vec4_maxv},
{"vec4_minadd",c_vec4_minadd},
{"vec4_minsub",c_vec4_minsub},
{"vec4_minv",c_vec4_minv},
{"vec4_mul",c_vec4_mul},
{"vec4_muladd",c_vec4_muladd},
{"vec4_muladds",c_vec4_muladds},
{"vec4_mulsub",c_vec4_mulsub},
{"vec4_mulsubs",c_vec4_mulsubs},
{"vec4_mulv",c_vec4_mulv},
{"vec4_negate",c_vec4_negate},
{"vec4_negate_to",c_vec4_negate_to},
{"vec4_norm",c_vec4_norm},
{"vec4_norm2",c_vec4_norm2},
{"vec4_norm_inf",c_vec4_norm_inf},
{"vec4_norm_one",c_vec4_norm_one},
{"vec4_one",c_vec4_one},
{"vec4_scale",c_vec4_scale},
{"vec4_sub",c_vec4_sub},
{"vec4_subadd",c_vec4_subadd},
{"vec4_subs",c_vec4_subs},
{"vec4_subsub",c_vec4_subsub},
{"vec4_ucopy",c_vec4_ucopy},
{"vec4_zero",c_vec4_zero},
#endif
#if defined(W_C02) || defined(W_ALL)
{"ivec2",c_ivec2},
{"ivec2_add",c_ivec2_add},
{"ivec2_addadd",c_ivec2_addadd},
{"ivec2_addadds",c_ivec2_addadds},
{"ivec2_adds",c_ivec2_adds},
{"ivec2_addsub",c_ivec2_addsub},
{"ivec2_addsubs",c_ivec2_addsubs},
{"ivec2_clamp",c_ivec2_clamp},
{"ivec2_copy",c_ivec2_copy},
{"ivec2_cross",c_ivec2_cross},
{"ivec2_distance",c_ivec2_distance},
{"ivec2_distance2",c_ivec2_distance2},
{"ivec2_div",c_ivec2_div},
{"ivec2_divs",c_ivec2_divs},
{"ivec2_dot",c_ivec2_dot},
{"ivec2_fill",c_ivec2_fill},
{"ivec2_maxadd",c_ivec2_maxadd},
{"ivec2_maxsub",c_ivec2_maxsub},
{"ivec2_maxv",c_ivec2_maxv},
{"ivec2_minadd",c_ivec2_minadd},
{"ivec2_minsub",c_ivec2_minsub},
{"ivec2_minv",c_ivec2_minv},
{"ivec2_mod",c_ivec2_mod},
{"ivec2_mul",c_ivec2_mul},
{"ivec2_muladd",c_ivec2_muladd},
{"ivec2_muladds",c_ivec2_muladds},
{"ivec2_mulsub",c_ivec2_mulsub},
{"ivec2_mulsubs",c_ivec2_mulsubs},
{"ivec2_one",c_ivec2_one},
{"ivec2_scale",c_ivec2_scale},
{"ivec2_sub",c_ivec2_sub},
{"ivec2_subadd",c_ivec2_subadd},
{"ivec2_subadds",c_ivec2_subadds},
{"ivec2_subs",c_ivec2_subs},
{"ivec2_subsub",c_ivec2_subsub},
{"ivec2_subsubs",c_ivec2_subsubs},
{"ivec2_zero",c_ivec2_zero},
{"ivec3",c_ivec3},
{"ivec3_add",c_ivec3_add},
{"ivec3_addadd",c_ivec3_addadd},
{"ivec3_addadds",c_ivec3_addadds},
{"ivec3_adds",c_ivec3_adds},
{"ivec3_addsub",c_ivec3_addsub},
{"ivec3_addsubs",c_ivec3_addsubs},
{"ivec3_clamp",c_ivec3_clamp},
{"ivec3_copy",c_ivec3_copy},
{"ivec3_distance",c_ivec3_distance},
{"ivec3_distance2",c_ivec3_distance2},
{"ivec3_div",c_ivec3_div},
{"ivec3_divs",c_ivec3_divs},
{"ivec3_dot",c_ivec3_dot},
{"ivec3_fill",c_ivec3_fill},
{"ivec3_maxadd",c_ivec3_maxadd},
{"ivec3_maxsub",c_ivec3_maxsub},
{"ivec3_maxv",c_ivec3_maxv},
{"ivec3_minadd",c_ivec3_minadd},
{"ivec3_minsub",c_ivec3_minsub},
{"ivec3_minv",c_ivec3_minv},
{"ivec3_mod",c_ivec3_mod},
{"ivec3_mul",c_ivec3_mul},
{"ivec3_muladd",c_ivec3_muladd},
{"ivec3_muladds",c_ivec3_muladds},
{"ivec3_mulsub",c_ivec3_mulsub},
{"ivec3_mulsubs",c_ivec3_mulsubs},
{"ivec3_norm",c_ivec3_norm},
{"ivec3_norm2",c_ivec3_norm2},
{"ivec3_one",c_ivec3_one},
{"ivec3_scale",c_ivec3_scale},
{"ivec3_sub",c_ivec3_sub},
{"ivec3_subadd",c_ivec3_subadd},
{"ivec3_subadds",c_ivec3_subadds},
{"ivec3_subs",c_ivec3_subs},
{"ivec3_subsub",c_ivec3_subsub},
{"ivec3_subsubs",c_ivec3_subsubs},
{"ivec3_zero",c_ivec3_zero},
{"ivec4",c_ivec4},
{"ivec4_add",c_ivec4_add},
{"ivec4_addadd",c_ivec4_addadd},
{"ivec4_addadds",c_ivec4_addadds},
{"ivec4_adds",c_ivec4_adds},
{"ivec4_addsub",c_ivec4_addsub},
{"ivec4_addsubs",c_ivec4_addsubs},
{"ivec4_clamp",c_ivec4_clamp},
{"ivec4_copy",c_ivec4_copy},
{"ivec4_distance",c_ivec4_distance},
{"ivec4_distance2",c_ivec4_distance2},
{"ivec4_maxadd",c_ivec4_maxadd},
{"ivec4_maxsub",c_ivec4_maxsub},
{"ivec4_maxv",c_ivec4_maxv},
{"ivec4_minadd",c_ivec4_minadd},
{"ivec4_minsub",c_ivec4_minsub},
{"ivec4_minv",c_ivec4_minv},
{"ivec4_mul",c_ivec4_mul},
{"ivec4_muladd",c_ivec4_muladd},
{"ivec4_muladds",c_ivec4_muladds},
{"ivec4_mulsub",c_ivec4_mulsub},
{"ivec4_mulsubs",c_ivec4_mulsubs},
{"ivec4_one",c_ivec4_one},
{"ivec4_scale",c_ivec4_scale},
{"ivec4_sub",c_ivec4_sub},
{"ivec4_subadd",c_ivec4_subadd},
{"ivec4_subadds",c_ivec4_subadds},
{"ivec4_subs",c_ivec4_subs},
{"ivec4_subsub",c_ivec4_subsub},
{"ivec4_subsubs",c_ivec4_subsubs},
{"ivec4_zero",c_ivec4_zero},
#endif
#if defined(W_C02) || defined(W_C03) || defined(W_ALL)
{"ivec2_abs",c_ivec2_abs},
{"ivec2_eq",c_ivec2_eq},
{"ivec2_eqv",c_ivec2_eqv},
{"ivec3_abs",c_ivec3_abs},
{"ivec3_eq",c_ivec3_eq},
{"ivec3_eqv",c_ivec3_eqv},
{"ivec4_abs",c_ivec4_abs},
#endif
#if defined(W_C03) || defined(W_ALL)
{"vec2_abs",c_vec2_abs},
{"vec2_eq",c_vec2_eq},
{"vec2_eqv",c_vec2_eqv},
{"vec2_floor",c_vec2_floor},
{"vec2_fract",c_vec2_fract},
{"vec2_mods",c_vec2_mods},
{"vec2_swizzle",c_vec2_swizzle},
{"vec3_abs",c_vec3_abs},
{"vec3_eq",c_vec3_eq},
{"vec3_eq_all",c_vec3_eq_all},
{"vec3_eq_eps",c_vec3_eq_eps},
{"vec3_eqv",c_vec3_eqv},
{"vec3_eqv_eps",c_vec3_eqv_eps},
{"vec3_floor",c_vec3_floor},
{"vec3_fract",c_vec3_fract},
{"vec3_isinf",c_vec3_isinf},
{"vec3_isnan",c_vec3_isnan},
{"vec3_isvalid",c_vec3_isvalid},
{"vec3_max",c_vec3_max},
{"vec3_min",c_vec3_min},
{"vec3_mods",c_vec3_mods},
{"vec3_sign",c_vec3_sign},
{"vec3_sqrt",c_vec3_sqrt},
{"vec3_swizzle",c_vec3_swizzle},
{"vec4_abs",c_vec4_abs},
{"vec4_eq",c_vec4_eq},
{"vec4_eq_all",c_vec4_eq_all},
{"vec4_eq_eps",c_vec4_eq_eps},
{"vec4_eqv",c_vec4_eqv},
{"vec4_eqv_eps",c_vec4_eqv_eps},
{"vec4_floor",c_vec4_floor},
{"vec4_fract",c_vec4_fract},
{"vec4_isinf",c_vec4_isinf},
{"vec4_isnan",c_vec4_isnan},
{"vec4_isvalid",c_vec4_isvalid},
{"vec4_max",c_vec4_max},
{"vec4_min",c_vec4_min},
{"vec4_mods",c_vec4_mods},
{"vec4_sign",c_vec4_sign},
{"vec4_sqrt",c_vec4_sqrt},
{"vec4_swizzle",c_vec4_swizzle},
#endif
#if defined(W_C03) || defined(W_C04) || defined(W_ALL)
{"vec2_step",c_vec2_step},
{"vec2_stepr",c_vec2_stepr},
{"vec2_steps",c_vec2_steps},
{"vec3_step",c_vec3_step},
{"vec3_step_uni",c_vec3_step_uni},
{"vec3_stepr",c_vec3_stepr},
{"vec3_steps",c_vec3_steps},
{"vec4_step",c_vec4_step},
{"vec4_step_uni",c_vec4_step_uni},
{"vec4_stepr",c_vec4_stepr},
{"vec4_steps",c_vec4_steps},
#endif
#if defined(W_C04) || defined(W_ALL)
{"vec2_lerp",c_vec2_lerp},
{"vec3_lerp",c_vec3_lerp},
{"vec3_lerpc",c_vec3_lerpc},
{"vec3_smoothinterp",c_vec3_smoothinterp},
{"vec3_smoothinterpc",c_vec3_smoothinterpc},
{"vec3_smoothstep",c_vec3_smoothstep},
{"vec3_smoothstep_uni",c_vec3_smoothstep_uni},
{"vec4_lerp",c_vec4_lerp},
{"vec4_lerpc",c_vec4_lerpc},
{"vec4_smoothinterp",c_vec4_smoothinterp},
{"vec4_smoothinterpc",c_vec4_smoothinterpc},
{"vec4_smoothstep",c_vec4_smoothstep},
{"vec4_smoothstep_uni",c_vec4_smoothstep_uni},
#endif
#if defined(W_C05) || defined(W_ALL)
{"vec2_center",c_vec2_center},
{"vec2_normalize",c_vec2_normalize},
{"vec2_normalize_to",c_vec2_normalize_to},
{"vec2_reflect",c_vec2_reflect},
{"vec2_refract",c_vec2_refract},
{"vec2_rotate",c_vec2_rotate},
{"vec2_scale_as",c_vec2_scale_as},
{"vec3_angle",c_vec3_angle},
{"vec3_center",c_vec3_center},
{"vec3_crossn",c_vec3_crossn},
{"vec3_faceforward",c_vec3_faceforward},
{"vec3_normalize",c_vec3_normalize},
{"vec3_normalize_to",c_vec3_normalize_to},
{"vec3_ortho",c_vec3_ortho},
{"vec3_proj",c_vec3_proj},
{"vec3_reflect",c_vec3_reflect},
{"vec3_refract",c_vec3_refract},
{"vec3_rotate",c_vec3_rotate},
{"vec3_rotate_m3",c_vec3_rotate_m3},
{"vec3_rotate_m4",c_vec3_rotate_m4},
{"vec3_scale_as",c_vec3_scale_as},
{"vec4_normalize",c_vec4_normalize},
{"vec4_normalize_to",c_vec4_normalize_to},
{"vec4_reflect",c_vec4_reflect},
{"vec4_refract",c_vec4_refract},
{"vec4_scale_as",c_vec4_scale_as},
#endif
#if defined(W_C06) || defined(W_ALL)
{"mat2_copy",c_mat2_copy},
{"mat2_identity",c_mat2_identity},
{"mat2_identity_array",c_mat2_identity_array},
{"mat2_make",c_mat2_make},
{"mat2_mul",c_mat2_mul},
{"mat2_mulv",c_mat2_mulv},
{"mat2_rmc",c_mat2_rmc},
{"mat2_scale",c_mat2_scale},
{"mat2_swap_col",c_mat2_swap_col},
{"mat2_swap_row",c_mat2_swap_row},
{"mat2_trace",c_mat2_trace},
{"mat2_transpose",c_mat2_transpose},
{"mat2_transpose_to",c_mat2_transpose_to},
{"mat2_zero",c_mat2_zero},
{"mat2x3_copy",c_mat2x3_copy},
{"mat2x3_make",c_mat2x3_make},
{"mat2x3_mul",c_mat2x3_mul},
{"mat2x3_mulv",c_mat2x3_mulv},
{"mat2x3_scale",c_mat2x3_scale},
{"mat2x3_transpose",c_mat2x3_transpose},
{"mat2x3_zero",c_mat2x3_zero},
{"mat2x4_copy",c_mat2x4_copy},
{"mat2x4_make",c_mat2x4_make},
{"mat2x4_mul",c_mat2x4_mul},
{"mat2x4_mulv",c_mat2x4_mulv},
{"mat2x4_scale",c_mat2x4_scale},
{"mat2x4_transpose",c_mat2x4_transpose},
{"mat2x4_zero",c_mat2x4_zero},
{"mat3_copy",c_mat3_copy},
{"mat3_dup",c_mat3_dup},
{"mat3_identity",c_mat3_identity},
{"mat3_identity_array",c_mat3_identity_array},
{"mat3_make",c_mat3_make},
{"mat3_mul",c_mat3_mul},
{"mat3_mulv",c_mat3_mulv},
{"mat3_rmc",c_mat3_rmc},
{"mat3_scale",c_mat3_scale},
{"mat3_swap_col",c_mat3_swap_col},
{"mat3_swap_row",c_mat3_swap_row},
{"mat3_trace",c_mat3_trace},
{"mat3_transpose",c_mat3_transpose},
{"mat3_transpose_to",c_mat3_transpose_to},
{"mat3_zero",c_mat3_zero},
{"mat3x2_copy",c_mat3x2_copy},
{"mat3x2_make",c_mat3x2_make},
{"mat3x2_mul",c_mat3x2_mul},
{"mat3x2_mulv",c_mat3x2_mulv},
{"mat3x2_scale",c_mat3x2_scale},
{"mat3x2_transpose",c_mat3x2_transpose},
{"mat3x2_zero",c_mat3x2_zero},
{"mat3x4_copy",c_mat3x4_copy},
{"mat3x4_make",c_mat3x4_make},
{"mat3x4_mul",c_mat3x4_mul},
{"mat3x4_mulv",c_mat3x4_mulv},
{"mat3x4_scale",c_mat3x4_scale},
{"mat3x4_transpose",c_mat3x4_transpose},
{"mat3x4_zero",c_mat3x4_zero},
{"mat4_copy",c_mat4_copy},
{"mat4_dup",c_mat4_dup},
{"mat4_identity",c_mat4_identity},
{"mat4_identity_array",c_mat4_identity_array},
{"mat4_ins3",c_mat4_ins3},
{"mat4_make",c_mat4_make},
{"mat4_mul",c_mat4_mul},
{"mat4_mulN",c_mat4_mulN},
{"mat4_mulv",c_mat4_mulv},
{"mat4_mulv3",c_mat4_mulv3},
{"mat4_pick3",c_mat4_pick3},
{"mat4_pick3t",c_mat4_pick3t},
{"mat4_rmc",c_mat4_rmc},
{"mat4_scale",c_mat4_scale},
{"mat4_scale_p",c_mat4_scale_p},
{"mat4_swap_col",c_mat4_swap_col},
{"mat4_swap_row",c_mat4_swap_row},
{"mat4_trace",c_mat4_trace},
{"mat4_trace3",c_mat4_trace3},
{"mat4_transpose",c_mat4_transpose},
{"mat4_transpose_to",c_mat4_transpose_to},
{"mat4_ucopy",c_mat4_ucopy},
{"mat4_udup",c_mat4_udup},
{"mat4_zero",c_mat4_zero},
{"mat4x2_copy",c_mat4x2_copy},
{"mat4x2_make",c_mat4x2_make},
{"mat4x2_mul",c_mat4x2_mul},
{"mat4x2_mulv",c_mat4x2_mulv},
{"mat4x2_scale",c_mat4x2_scale},
{"mat4x2_transpose",c_mat4x2_transpose},
{"mat4x2_zero",c_mat4x2_zero},
{"mat4x3_copy",c_mat4x3_copy},
{"mat4x3_make",c_mat4x3_make},
{"mat4x3_mul",c_mat4x3_mul},
{"mat4x3_mulv",c_mat4x3_mulv},
{"mat4x3_scale",c_mat4x3_scale},
{"mat4x3_transpose",c_mat4x3_transpose},
{"mat4x3_zero",c_mat4x3_zero},
#endif
#if defined(W_C07) || defined(W_ALL)
{"mat2_det",c_mat2_det},
{"mat2_inv",c_mat2_inv},
{"mat3_det",c_mat3_det},
{"mat3_inv",c_mat3_inv},
{"mat4_det",c_mat4_det},
{"mat4_inv",c_mat4_inv},
{"mat4_inv_fast",c_mat4_inv_fast},
{"mat4_inv_precise",c_mat4_inv_precise},
#endif
#if defined(W_C08) || defined(W_ALL)
{"decompose",c_decompose},
{"decompose_rs",c_decompose_rs},
{"decompose_scalev",c_decompose_scalev},
{"inv_tr",c_inv_tr},
{"mul",c_mul},
{"mul_rot",c_mul_rot},
{"rotate",c_rotate},
{"rotate_at",c_rotate_at},
{"rotate_atm",c_rotate_atm},
{"rotate_make",c_rotate_make},
{"rotate_x",c_rotate_x},
{"rotate_y",c_rotate_y},
{"rotate_z",c_rotate_z},
{"rotated",c_rotated},
{"rotated_at",c_rotated_at},
{"rotated_x",c_rotated_x},
{"rotated_y",c_rotated_y},
{"rotated_z",c_rotated_z},
{"scale",c_scale},
{"scale_make",c_scale_make},
{"scale_to",c_scale_to},
{"scale_uni",c_scale_uni},
{"spin",c_spin},
{"spinned",c_spinned},
{"translate",c_translate},
{"translate_make",c_translate_make},
{"translate_to",c_translate_to},
{"translate_x",c_translate_x},
{"translate_y",c_translate_y},
{"translate_z",c_translate_z},
{"translated",c_translated},
{"translated_to",c_translated_to},
{"translated_x",c_translated_x},
{"translated_y",c_translated_y},
{"translated_z",c_translated_z},
{"uniscaled",c_uniscaled},
#endif
#if defined(W_C09) || defined(W_ALL)
{"mat3_textrans",c_mat3_textrans},
{"mat4_textrans",c_mat4_textrans},
{"rotate2d",c_rotate2d},
{"rotate2d_make",c_rotate2d_make},
{"rotate2d_to",c_rotate2d_to},
{"scale2d",c_scale2d},
{"scale2d_make",c_scale2d_make},
{"scale2d_to",c_scale2d_to},
{"scale2d_uni",c_scale2d_uni},
{"translate2d",c_translate2d},
{"translate2d_make",c_translate2d_make},
{"translate2d_to",c_translate2d_to},
{"translate2d_x",c_translate2d_x},
{"translate2d_y",c_translate2d_y},
#endif
#if defined(W_C10) || defined(W_ALL)
{"quat",c_quat},
{"quat_add",c_quat_add},
{"quat_angle",c_quat_angle},
{"quat_axis",c_quat_axis},
{"quat_conjugate",c_quat_conjugate},
{"quat_copy",c_quat_copy},
{"quat_dot",c_quat_dot},
{"quat_from_vecs",c_quat_from_vecs},
{"quat_identity",c_quat_identity},
{"quat_identity_array",c_quat_identity_array},
{"quat_imag",c_quat_imag},
{"quat_imaglen",c_quat_imaglen},
{"quat_imagn",c_quat_imagn},
{"quat_init",c_quat_init},
{"quat_inv",c_quat_inv},
{"quat_make",c_quat_make},
{"quat_mul",c_quat_mul},
{"quat_norm",c_quat_norm},
{"quat_normalize",c_quat_normalize},
{"quat_normalize_to",c_quat_normalize_to},
{"quat_real",c_quat_real},
{"quat_sub",c_quat_sub},
{"quatv",c_quatv},
#endif
#if defined(W_C10) || defined(W_C11) || defined(W_ALL)
{"quat_rotatev",c_quat_rotatev},
#endif
#if defined(W_C11) || defined(W_ALL)
{"mat3_quat",c_mat3_quat},
{"mat4_quat",c_mat4_quat},
{"quat_for",c_quat_for},
{"quat_forp",c_quat_forp},
{"quat_look",c_quat_look},
{"quat_mat3",c_quat_mat3},
{"quat_mat3t",c_quat_mat3t},
{"quat_mat4",c_quat_mat4},
{"quat_mat4t",c_quat_mat4t},
{"quat_rotate",c_quat_rotate},
{"quat_rotate_at",c_quat_rotate_at},
{"quat_rotate_atm",c_quat_rotate_atm},
#endif
#if defined(W_C12) || defined(W_ALL)
{"quat_lerp",c_quat_lerp},
{"quat_lerpc",c_quat_lerpc},
{"quat_nlerp",c_quat_nlerp},
{"quat_slerp",c_quat_slerp},
{"quat_slerp_longest",c_quat_slerp_longest},
#endif
#if defined(W_C13) || defined(W_ALL)
{"euler",c_euler},
{"euler_angles",c_euler_angles},
{"euler_by_order",c_euler_by_order},
{"euler_xyz",c_euler_xyz},
{"euler_xyz_quat",c_euler_xyz_quat},
{"euler_xzy",c_euler_xzy},
{"euler_xzy_quat",c_euler_xzy_quat},
{"euler_yxz",c_euler_yxz},
{"euler_yxz_quat",c_euler_yxz_quat},
{"euler_yzx",c_euler_yzx},
{"euler_yzx_quat",c_euler_yzx_quat},
{"euler_zxy",c_euler_zxy},
{"euler_zxy_quat",c_euler_zxy_quat},
{"euler_zyx",c_euler_zyx},
{"euler_zyx_quat",c_euler_zyx_quat},
#endif
#if defined(W_C14) || defined(W_ALL)
{"look",c_look},
{"look_anyup",c_look_anyup},
{"look_anyup_lh_no",c_look_anyup_lh_no},
{"look_anyup_lh_zo",c_look_anyup_lh_zo},
{"look_anyup_rh_no",c_look_anyup_rh_no},
{"look_anyup_rh_zo",c_look_anyup_rh_zo},
{"look_lh_no",c_look_lh_no},
{"look_lh_zo",c_look_lh_zo},
{"look_rh_no",c_look_rh_no},
{"look_rh_zo",c_look_rh_zo},
{"lookat",c_lookat},
{"lookat_lh_no",c_lookat_lh_no},
{"lookat_lh_zo",c_lookat_lh_zo},
{"lookat_rh_no",c_lookat_rh_no},
{"lookat_rh_zo",c_lookat_rh_zo},
#endif
#if defined(W_C15) || defined(W_ALL)
{"frustum",c_frustum},
{"frustum_lh_no",c_frustum_lh_no},
{"frustum_lh_zo",c_frustum_lh_zo},
{"frustum_rh_no",c_frustum_rh_no},
{"frustum_rh_zo",c_frustum_rh_zo},
{"ortho",c_ortho},
{"ortho_aabb",c_ortho_aabb},
{"ortho_aabb_lh_no",c_ortho_aabb_lh_no},
{"ortho_aabb_lh_zo",c_ortho_aabb_lh_zo},
{"ortho_aabb_p",c_ortho_aabb_p},
{"ortho_aabb_p_lh_no",c_ortho_aabb_p_lh_no},
{"ortho_aabb_p_lh_zo",c_ortho_aabb_p_lh_zo},
{"ortho_aabb_p_rh_no",c_ortho_aabb_p_rh_no},
{"ortho_aabb_p_rh_zo",c_ortho_aabb_p_rh_zo},
{"ortho_aabb_pz",c_ortho_aabb_pz},
{"ortho_aabb_pz_lh_no",c_ortho_aabb_pz_lh_no},
{"ortho_aabb_pz_lh_zo",c_ortho_aabb_pz_lh_zo},
{"ortho_aabb_pz_rh_no",c_ortho_aabb_pz_rh_no},
{"ortho_aabb_pz_rh_zo",c_ortho_aabb_pz_rh_zo},
{"ortho_aabb_rh_no",c_ortho_aabb_rh_no},
{"ortho_aabb_rh_zo",c_ortho_aabb_rh_zo},
{"ortho_default",c_ortho_default},
{"ortho_default_lh_no",c_ortho_default_lh_no},
{"ortho_default_lh_zo",c_ortho_default_lh_zo},
{"ortho_default_rh_no",c_ortho_default_rh_no},
{"ortho_default_rh_zo",c_ortho_default_rh_zo},
{"ortho_default_s",c_ortho_default_s},
{"ortho_default_s_lh_no",c_ortho_default_s_lh_no},
{"ortho_default_s_lh_zo",c_ortho_default_s_lh_zo},
{"ortho_default_s_rh_no",c_ortho_default_s_rh_no},
{"ortho_default_s_rh_zo",c_ortho_default_s_rh_zo},
{"ortho_lh_no",c_ortho_lh_no},
{"ortho_lh_zo",c_ortho_lh_zo},
{"ortho_rh_no",c_ortho_rh_no},
{"ortho_rh_zo",c_ortho_rh_zo},
{"perspective",c_perspective},
{"perspective_default",c_perspective_default},
{"perspective_lh_no",c_perspective_lh_no},
{"perspective_lh_zo",c_perspective_lh_zo},
{"perspective_rh_no",c_perspective_rh_no},
{"perspective_rh_zo",c_perspective_rh_zo},
#endif
#if defined(W_C15) || defined(W_C16) || defined(W_ALL)
{"perspective_resize",c_perspective_resize},
#endif
#if defined(W_C16) || defined(W_ALL)
{"persp_aspect",c_persp_aspect},
{"persp_aspect_lh_no",c_persp_aspect_lh_no},
{"persp_aspect_lh_zo",c_persp_aspect_lh_zo},
{"persp_aspect_rh_no",c_persp_aspect_rh_no},
{"persp_aspect_rh_zo",c_persp_aspect_rh_zo},
{"persp_decomp",c_persp_decomp},
{"persp_decomp_far",c_persp_decomp_far},
{"persp_decomp_far_lh_no",c_persp_decomp_far_lh_no},
{"persp_decomp_far_lh_zo",c_persp_decomp_far_lh_zo},
{"persp_decomp_far_rh_no",c_persp_decomp_far_rh_no},
{"persp_decomp_far_rh_zo",c_persp_decomp_far_rh_zo},
{"persp_decomp_lh_no",c_persp_decomp_lh_no},
{"persp_decomp_lh_zo",c_persp_decomp_lh_zo},
{"persp_decomp_near",c_persp_decomp_near},
{"persp_decomp_near_lh_no",c_persp_decomp_near_lh_no},
{"persp_decomp_near_lh_zo",c_persp_decomp_near_lh_zo},
{"persp_decomp_near_rh_no",c_persp_decomp_near_rh_no},
{"persp_decomp_near_rh_zo",c_persp_decomp_near_rh_zo},
{"persp_decomp_rh_no",c_persp_decomp_rh_no},
{"persp_decomp_rh_zo",c_persp_decomp_rh_zo},
{"persp_decomp_x",c_persp_decomp_x},
{"persp_decomp_x_lh_no",c_persp_decomp_x_lh_no},
{"persp_decomp_x_lh_zo",c_persp_decomp_x_lh_zo},
{"persp_decomp_x_rh_no",c_persp_decomp_x_rh_no},
{"persp_decomp_x_rh_zo",c_persp_decomp_x_rh_zo},
{"persp_decomp_y",c_persp_decomp_y},
{"persp_decomp_y_lh_no",c_persp_decomp_y_lh_no},
{"persp_decomp_y_lh_zo",c_persp_decomp_y_lh_zo},
{"persp_decomp_y_rh_no",c_persp_decomp_y_rh_no},
{"persp_decomp_y_rh_zo",c_persp_decomp_y_rh_zo},
{"persp_decomp_z",c_persp_decomp_z},
{"persp_decomp_z_lh_no",c_persp_decomp_z_lh_no},
{"persp_decomp_z_lh_zo",c_persp_decomp_z_lh_zo},
{"persp_decomp_z_rh_no",c_persp_decomp_z_rh_no},
{"persp_decomp_z_rh_zo",c_persp_decomp_z_rh_zo},
{"persp_decompv",c_persp_decompv},
{"persp_decompv_lh_no",c_persp_decompv_lh_no},
{"persp_decompv_lh_zo",c_persp_decompv_lh_zo},
{"persp_decompv_rh_no",c_persp_decompv_rh_no},
{"persp_decompv_rh_zo",c_persp_decompv_rh_zo},
{"persp_fovy",c_persp_fovy},
{"persp_fovy_lh_no",c_persp_fovy_lh_no},
{"persp_fovy_lh_zo",c_persp_fovy_lh_zo},
{"persp_fovy_rh_no",c_persp_fovy_rh_no},
{"persp_fovy_rh_zo",c_persp_fovy_rh_zo},
{"persp_move_far",c_persp_move_far},
{"persp_move_far_lh_no",c_persp_move_far_lh_no},
{"persp_move_far_lh_zo",c_persp_move_far_lh_zo},
{"persp_move_far_rh_no",c_persp_move_far_rh_no},
{"persp_move_far_rh_zo",c_persp_move_far_rh_zo},
{"persp_sizes",c_persp_sizes},
{"persp_sizes_lh_no",c_persp_sizes_lh_no},
{"persp_sizes_lh_zo",c_persp_sizes_lh_zo},
{"persp_sizes_rh_no",c_persp_sizes_rh_no},
{"persp_sizes_rh_zo",c_persp_sizes_rh_zo},
#endif
#if defined(W_C17) || defined(W_ALL)
{"pickmatrix",c_pickmatrix},
{"project",c_project},
{"project_no",c_project_no},
{"project_z",c_project_z},
{"project_z_no",c_project_z_no},
{"project_z_zo",c_project_z_zo},
{"project_zo",c_project_zo},
{"unproject",c_unproject},
{"unprojecti",c_unprojecti},
{"unprojecti_no",c_unprojecti_no},
{"unprojecti_zo",c_unprojecti_zo},
#endif
#if defined(W_C18) || defined(W_ALL)
{"aabb_frustum",c_aabb_frustum},
{"frustum_box",c_frustum_box},
{"frustum_center",c_frustum_center},
{"frustum_corners",c_frustum_corners},
{"frustum_corners_at",c_frustum_corners_at},
{"frustum_planes",c_frustum_planes},
{"plane_normalize",c_plane_normalize},
#endif
#if defined(W_C19) || defined(W_ALL)
{"aabb2d_aabb",c_aabb2d_aabb},
{"aabb2d_center",c_aabb2d_center},
{"aabb2d_circle",c_aabb2d_circle},
{"aabb2d_contains",c_aabb2d_contains},
{"aabb2d_copy",c_aabb2d_copy},
{"aabb2d_crop",c_aabb2d_crop},
{"aabb2d_crop_until",c_aabb2d_crop_until},
{"aabb2d_diag",c_aabb2d_diag},
{"aabb2d_invalidate",c_aabb2d_invalidate},
{"aabb2d_isvalid",c_aabb2d_isvalid},
{"aabb2d_merge",c_aabb2d_merge},
{"aabb2d_point",c_aabb2d_point},
{"aabb2d_radius",c_aabb2d_radius},
{"aabb2d_size",c_aabb2d_size},
{"aabb2d_sizev",c_aabb2d_sizev},
{"aabb2d_transform",c_aabb2d_transform},
{"aabb2d_zero",c_aabb2d_zero},
{"aabb_aabb",c_aabb_aabb},
{"aabb_center",c_aabb_center},
{"aabb_contains",c_aabb_contains},
{"aabb_crop",c_aabb_crop},
{"aabb_crop_until",c_aabb_crop_until},
{"aabb_invalidate",c_aabb_invalidate},
{"aabb_isvalid",c_aabb_isvalid},
{"aabb_merge",c_aabb_merge},
{"aabb_point",c_aabb_point},
{"aabb_radius",c_aabb_radius},
{"aabb_size",c_aabb_size},
{"aabb_sphere",c_aabb_sphere},
{"aabb_transform",c_aabb_transform},
#endif
#if defined(W_C20) || defined(W_ALL)
{"ray_at",c_ray_at},
{"ray_sphere",c_ray_sphere},
{"ray_triangle",c_ray_triangle},
{"sphere_merge",c_sphere_merge},
{"sphere_point",c_sphere_point},
{"sphere_radii",c_sphere_radii},
{"sphere_sphere",c_sphere_sphere},
{"sphere_transform",c_sphere_transform},
#endif
#if defined(W_C21) || defined(W_ALL)
{"bezier",c_bezier},
{"decasteljau",c_decasteljau},
{"ease_back_in",c_ease_back_in},
{"ease_back_inout",c_ease_back_inout},
{"ease_back_out",c_ease_back_out},
{"ease_bounce_in",c_ease_bounce_in},
{"ease_bounce_inout",c_ease_bounce_inout},
{"ease_bounce_out",c_ease_bounce_out},
{"ease_circ_in",c_ease_circ_in},
{"ease_circ_inout",c_ease_circ_inout},
{"ease_circ_out",c_ease_circ_out},
{"ease_cubic_in",c_ease_cubic_in},
{"ease_cubic_inout",c_ease_cubic_inout},
{"ease_cubic_out",c_ease_cubic_out},
{"ease_elast_in",c_ease_elast_in},
{"ease_elast_inout",c_ease_elast_inout},
{"ease_elast_out",c_ease_elast_out},
{"ease_exp_in",c_ease_exp_in},
{"ease_exp_inout",c_ease_exp_inout},
{"ease_exp_out",c_ease_exp_out},
{"ease_linear",c_ease_linear},
{"ease_quad_in",c_ease_quad_in},
{"ease_quad_inout",c_ease_quad_inout},
{"ease_quad_out",c_ease_quad_out},
{"ease_quart_in",c_ease_quart_in},
{"ease_quart_inout",c_ease_quart_inout},
{"ease_quart_out",c_ease_quart_out},
{"ease_quint_in",c_ease_quint_in},
{"ease_quint_inout",c_ease_quint_inout},
{"ease_quint_out",c_ease_quint_out},
{"ease_sine_in",c_ease_sine_in},
{"ease_sine_inout",c_ease_sine_inout},
{"ease_sine_out",c_ease_sine_out},
{"hermite",c_hermite},
{"smc",c_smc},
#endif
#if defined(W_C22) || defined(W_ALL)
{"perlin_vec2",c_perlin_vec2},
{"perlin_vec3",c_perlin_vec3},
{"perlin_vec4",c_perlin_vec4},
#endif
{0,0}};
