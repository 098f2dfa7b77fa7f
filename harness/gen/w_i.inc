#if defined(W_C01) || defined(W_ALL)
static void i_cross(Call*c){ glm_cross(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_dot(Call*c){ c->rf=glm_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2(Call*c){ glm_vec2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_add(Call*c){ glm_vec2_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_addadd(Call*c){ glm_vec2_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_adds(Call*c){ glm_vec2_adds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_addsub(Call*c){ glm_vec2_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_clamp(Call*c){ glm_vec2_clamp(VOIDP c->p[0], c->f[1], c->f[2]); }
static void i_vec2_complex_conjugate(Call*c){ glm_vec2_complex_conjugate(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_complex_div(Call*c){ glm_vec2_complex_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_complex_mul(Call*c){ glm_vec2_complex_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_copy(Call*c){ glm_vec2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_cross(Call*c){ c->rf=glm_vec2_cross(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_distance(Call*c){ c->rf=glm_vec2_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_distance2(Call*c){ c->rf=glm_vec2_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_div(Call*c){ glm_vec2_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_divs(Call*c){ glm_vec2_divs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_dot(Call*c){ c->rf=glm_vec2_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_fill(Call*c){ glm_vec2_fill(VOIDP c->p[0], c->f[1]); }
static void i_vec2_make(Call*c){ glm_vec2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_maxadd(Call*c){ glm_vec2_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_maxsub(Call*c){ glm_vec2_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_maxv(Call*c){ glm_vec2_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_minadd(Call*c){ glm_vec2_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_minsub(Call*c){ glm_vec2_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_minv(Call*c){ glm_vec2_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_mul(Call*c){ glm_vec2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_muladd(Call*c){ glm_vec2_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_muladds(Call*c){ glm_vec2_muladds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_mulsub(Call*c){ glm_vec2_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_mulsubs(Call*c){ glm_vec2_mulsubs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_negate(Call*c){ glm_vec2_negate(VOIDP c->p[0]); }
static void i_vec2_negate_to(Call*c){ glm_vec2_negate_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_norm(Call*c){ c->rf=glm_vec2_norm(VOIDP c->p[0]); }
static void i_vec2_norm2(Call*c){ c->rf=glm_vec2_norm2(VOIDP c->p[0]); }
static void i_vec2_one(Call*c){ glm_vec2_one(VOIDP c->p[0]); }
static void i_vec2_scale(Call*c){ glm_vec2_scale(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_sub(Call*c){ glm_vec2_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_subadd(Call*c){ glm_vec2_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_subs(Call*c){ glm_vec2_subs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_subsub(Call*c){ glm_vec2_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_zero(Call*c){ glm_vec2_zero(VOIDP c->p[0]); }
static void i_vec3(Call*c){ glm_vec3(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_add(Call*c){ glm_vec3_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_addadd(Call*c){ glm_vec3_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_adds(Call*c){ glm_vec3_adds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_addsub(Call*c){ glm_vec3_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_broadcast(Call*c){ glm_vec3_broadcast(c->f[0], VOIDP c->p[1]); }
static void i_vec3_clamp(Call*c){ glm_vec3_clamp(VOIDP c->p[0], c->f[1], c->f[2]); }
static void i_vec3_copy(Call*c){ glm_vec3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_cross(Call*c){ glm_vec3_cross(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_distance(Call*c){ c->rf=glm_vec3_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_distance2(Call*c){ c->rf=glm_vec3_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_div(Call*c){ glm_vec3_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_divs(Call*c){ glm_vec3_divs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_dot(Call*c){ c->rf=glm_vec3_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_dup(Call*c){ glm_vec3_dup(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_fill(Call*c){ glm_vec3_fill(VOIDP c->p[0], c->f[1]); }
static void i_vec3_flipsign(Call*c){ glm_vec3_flipsign(VOIDP c->p[0]); }
static void i_vec3_flipsign_to(Call*c){ glm_vec3_flipsign_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_hadd(Call*c){ c->rf=glm_vec3_hadd(VOIDP c->p[0]); }
static void i_vec3_inv(Call*c){ glm_vec3_inv(VOIDP c->p[0]); }
static void i_vec3_inv_to(Call*c){ glm_vec3_inv_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_make(Call*c){ glm_vec3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_maxadd(Call*c){ glm_vec3_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_maxsub(Call*c){ glm_vec3_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_maxv(Call*c){ glm_vec3_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_minadd(Call*c){ glm_vec3_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_minsub(Call*c){ glm_vec3_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_minv(Call*c){ glm_vec3_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_mul(Call*c){ glm_vec3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_muladd(Call*c){ glm_vec3_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_muladds(Call*c){ glm_vec3_muladds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_mulsub(Call*c){ glm_vec3_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_mulsubs(Call*c){ glm_vec3_mulsubs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_mulv(Call*c){ glm_vec3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_negate(Call*c){ glm_vec3_negate(VOIDP c->p[0]); }
static void i_vec3_negate_to(Call*c){ glm_vec3_negate_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_norm(Call*c){ c->rf=glm_vec3_norm(VOIDP c->p[0]); }
static void i_vec3_norm2(Call*c){ c->rf=glm_vec3_norm2(VOIDP c->p[0]); }
static void i_vec3_norm_inf(Call*c){ c->rf=glm_vec3_norm_inf(VOIDP c->p[0]); }
static void i_vec3_norm_one(Call*c){ c->rf=glm_vec3_norm_one(VOIDP c->p[0]); }
static void i_vec3_one(Call*c){ glm_vec3_one(VOIDP c->p[0]); }
static void i_vec3_scale(Call*c){ glm_vec3_scale(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_sub(Call*c){ glm_vec3_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_subadd(Call*c){ glm_vec3_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_subs(Call*c){ glm_vec3_subs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_subsub(Call*c){ glm_vec3_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_zero(Call*c){ glm_vec3_zero(VOIDP c->p[0]); }
static void i_vec4(Call*c){ glm_vec4(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_add(Call*c){ glm_vec4_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_addadd(Call*c){ glm_vec4_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_adds(Call*c){ glm_vec4_adds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_addsub(Call*c){ glm_vec4_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_broadcast(Call*c){ glm_vec4_broadcast(c->f[0], VOIDP c->p[1]); }
static void i_vec4_clamp(Call*c){ glm_vec4_clamp(VOIDP c->p[0], c->f[1], c->f[2]); }
static void i_vec4_copy(Call*c){ glm_vec4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_copy3(Call*c){ glm_vec4_copy3(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_cubic(Call*c){ glm_vec4_cubic(c->f[0], VOIDP c->p[1]); }
static void i_vec4_distance(Call*c){ c->rf=glm_vec4_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_distance2(Call*c){ c->rf=glm_vec4_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_div(Call*c){ glm_vec4_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_divs(Call*c){ glm_vec4_divs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_dot(Call*c){ c->rf=glm_vec4_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_dup(Call*c){ glm_vec4_dup(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_dup3(Call*c){ glm_vec4_dup3(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_fill(Call*c){ glm_vec4_fill(VOIDP c->p[0], c->f[1]); }
static void i_vec4_flipsign(Call*c){ glm_vec4_flipsign(VOIDP c->p[0]); }
static void i_vec4_flipsign_to(Call*c){ glm_vec4_flipsign_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_hadd(Call*c){ c->rf=glm_vec4_hadd(VOIDP c->p[0]); }
static void i_vec4_inv(Call*c){ glm_vec4_inv(VOIDP c->p[0]); }
static void i_vec4_inv_to(Call*c){ glm_vec4_inv_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_make(Call*c){ glm_vec4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_maxadd(Call*c){ glm_vec4_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_maxsub(Call*c){ glm_vec4_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_maxv(Call*c){ glm_vec4_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_minadd(Call*c){ glm_vec4_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_minsub(Call*c){ glm_vec4_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_minv(Call*c){ glm_vec4_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_mul(Call*c){ glm_vec4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_muladd(Call*c){ glm_vec4_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_muladds(Call*c){ glm_vec4_muladds(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_mulsub(Call*c){ glm_vec4_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_mulsubs(Call*c){ glm_vec4_mulsubs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_mulv(Call*c){ glm_vec4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_negate(Call*c){ glm_vec4_negate(VOIDP c->p[0]); }
static void i_vec4_negate_to(Call*c){ glm_vec4_negate_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_norm(Call*c){ c->rf=glm_vec4_norm(VOIDP c->p[0]); }
static void i_vec4_norm2(Call*c){ c->rf=glm_vec4_norm2(VOIDP c->p[0]); }
static void i_vec4_norm_inf(Call*c){ c->rf=glm_vec4_norm_inf(VOIDP c->p[0]); }
static void i_vec4_norm_one(Call*c){ c->rf=glm_vec4_norm_one(VOIDP c->p[0]); }
static void i_vec4_one(Call*c){ glm_vec4_one(VOIDP c->p[0]); }
static void i_vec4_scale(Call*c){ glm_vec4_scale(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_sub(Call*c){ glm_vec4_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_subadd(Call*c){ glm_vec4_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_subs(Call*c){ glm_vec4_subs(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_subsub(Call*c){ glm_vec4_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_ucopy(Call*c){ glm_vec4_ucopy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_zero(Call*c){ glm_vec4_zero(VOIDP c->p[0]); }
static void i_const_vec2_one_init(Call*c){ vec2 x=GLM_VEC2_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec2_zero_init(Call*c){ vec2 x=GLM_VEC2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec3_one_init(Call*c){ vec3 x=GLM_VEC3_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec3_zero_init(Call*c){ vec3 x=GLM_VEC3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec4_one_init(Call*c){ vec4 x=GLM_VEC4_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec4_zero_init(Call*c){ vec4 x=GLM_VEC4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec4_black_init(Call*c){ vec4 x=GLM_VEC4_BLACK_INIT; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C02) || defined(W_ALL)
static void i_ivec2(Call*c){ glm_ivec2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec2_add(Call*c){ glm_ivec2_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_addadd(Call*c){ glm_ivec2_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_addadds(Call*c){ glm_ivec2_addadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_adds(Call*c){ glm_ivec2_adds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_addsub(Call*c){ glm_ivec2_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_addsubs(Call*c){ glm_ivec2_addsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_clamp(Call*c){ glm_ivec2_clamp(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_ivec2_copy(Call*c){ glm_ivec2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec2_cross(Call*c){ c->ri=(int)glm_ivec2_cross(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec2_distance(Call*c){ c->rf=glm_ivec2_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec2_distance2(Call*c){ c->ri=(int)glm_ivec2_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec2_div(Call*c){ glm_ivec2_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_divs(Call*c){ glm_ivec2_divs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_dot(Call*c){ c->ri=(int)glm_ivec2_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec2_fill(Call*c){ glm_ivec2_fill(VOIDP c->p[0], c->i[1]); }
static void i_ivec2_maxadd(Call*c){ glm_ivec2_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_maxsub(Call*c){ glm_ivec2_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_maxv(Call*c){ glm_ivec2_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_minadd(Call*c){ glm_ivec2_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_minsub(Call*c){ glm_ivec2_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_minv(Call*c){ glm_ivec2_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_mod(Call*c){ glm_ivec2_mod(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_mul(Call*c){ glm_ivec2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_muladd(Call*c){ glm_ivec2_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_muladds(Call*c){ glm_ivec2_muladds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_mulsub(Call*c){ glm_ivec2_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_mulsubs(Call*c){ glm_ivec2_mulsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_one(Call*c){ glm_ivec2_one(VOIDP c->p[0]); }
static void i_ivec2_scale(Call*c){ glm_ivec2_scale(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_sub(Call*c){ glm_ivec2_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_subadd(Call*c){ glm_ivec2_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_subadds(Call*c){ glm_ivec2_subadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_subs(Call*c){ glm_ivec2_subs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_subsub(Call*c){ glm_ivec2_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec2_subsubs(Call*c){ glm_ivec2_subsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec2_zero(Call*c){ glm_ivec2_zero(VOIDP c->p[0]); }
static void i_ivec3(Call*c){ glm_ivec3(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec3_add(Call*c){ glm_ivec3_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_addadd(Call*c){ glm_ivec3_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_addadds(Call*c){ glm_ivec3_addadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_adds(Call*c){ glm_ivec3_adds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_addsub(Call*c){ glm_ivec3_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_addsubs(Call*c){ glm_ivec3_addsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_clamp(Call*c){ glm_ivec3_clamp(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_ivec3_copy(Call*c){ glm_ivec3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec3_distance(Call*c){ c->rf=glm_ivec3_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec3_distance2(Call*c){ c->ri=(int)glm_ivec3_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec3_div(Call*c){ glm_ivec3_div(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_divs(Call*c){ glm_ivec3_divs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_dot(Call*c){ c->ri=(int)glm_ivec3_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec3_fill(Call*c){ glm_ivec3_fill(VOIDP c->p[0], c->i[1]); }
static void i_ivec3_maxadd(Call*c){ glm_ivec3_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_maxsub(Call*c){ glm_ivec3_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_maxv(Call*c){ glm_ivec3_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_minadd(Call*c){ glm_ivec3_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_minsub(Call*c){ glm_ivec3_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_minv(Call*c){ glm_ivec3_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_mod(Call*c){ glm_ivec3_mod(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_mul(Call*c){ glm_ivec3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_muladd(Call*c){ glm_ivec3_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_muladds(Call*c){ glm_ivec3_muladds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_mulsub(Call*c){ glm_ivec3_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_mulsubs(Call*c){ glm_ivec3_mulsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_norm(Call*c){ c->ri=(int)glm_ivec3_norm(VOIDP c->p[0]); }
static void i_ivec3_norm2(Call*c){ c->ri=(int)glm_ivec3_norm2(VOIDP c->p[0]); }
static void i_ivec3_one(Call*c){ glm_ivec3_one(VOIDP c->p[0]); }
static void i_ivec3_scale(Call*c){ glm_ivec3_scale(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_sub(Call*c){ glm_ivec3_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_subadd(Call*c){ glm_ivec3_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_subadds(Call*c){ glm_ivec3_subadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_subs(Call*c){ glm_ivec3_subs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_subsub(Call*c){ glm_ivec3_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec3_subsubs(Call*c){ glm_ivec3_subsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec3_zero(Call*c){ glm_ivec3_zero(VOIDP c->p[0]); }
static void i_ivec4(Call*c){ glm_ivec4(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_add(Call*c){ glm_ivec4_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_addadd(Call*c){ glm_ivec4_addadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_addadds(Call*c){ glm_ivec4_addadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_adds(Call*c){ glm_ivec4_adds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_addsub(Call*c){ glm_ivec4_addsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_addsubs(Call*c){ glm_ivec4_addsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_clamp(Call*c){ glm_ivec4_clamp(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_ivec4_copy(Call*c){ glm_ivec4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec4_distance(Call*c){ c->rf=glm_ivec4_distance(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec4_distance2(Call*c){ c->ri=(int)glm_ivec4_distance2(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec4_maxadd(Call*c){ glm_ivec4_maxadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_maxsub(Call*c){ glm_ivec4_maxsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_maxv(Call*c){ glm_ivec4_maxv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_minadd(Call*c){ glm_ivec4_minadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_minsub(Call*c){ glm_ivec4_minsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_minv(Call*c){ glm_ivec4_minv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_mul(Call*c){ glm_ivec4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_muladd(Call*c){ glm_ivec4_muladd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_muladds(Call*c){ glm_ivec4_muladds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_mulsub(Call*c){ glm_ivec4_mulsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_mulsubs(Call*c){ glm_ivec4_mulsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_one(Call*c){ glm_ivec4_one(VOIDP c->p[0]); }
static void i_ivec4_scale(Call*c){ glm_ivec4_scale(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_sub(Call*c){ glm_ivec4_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_subadd(Call*c){ glm_ivec4_subadd(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_subadds(Call*c){ glm_ivec4_subadds(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_subs(Call*c){ glm_ivec4_subs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_subsub(Call*c){ glm_ivec4_subsub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_ivec4_subsubs(Call*c){ glm_ivec4_subsubs(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_ivec4_zero(Call*c){ glm_ivec4_zero(VOIDP c->p[0]); }
static void i_const_ivec2_one_init(Call*c){ ivec2 x=GLM_IVEC2_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec2_zero_init(Call*c){ ivec2 x=GLM_IVEC2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec3_one_init(Call*c){ ivec3 x=GLM_IVEC3_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec3_zero_init(Call*c){ ivec3 x=GLM_IVEC3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec4_one_init(Call*c){ ivec4 x=GLM_IVEC4_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec4_zero_init(Call*c){ ivec4 x=GLM_IVEC4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C02) || defined(W_C03) || defined(W_ALL)
static void i_ivec2_abs(Call*c){ glm_ivec2_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec2_eq(Call*c){ c->ri=(int)glm_ivec2_eq(VOIDP c->p[0], c->i[1]); }
static void i_ivec2_eqv(Call*c){ c->ri=(int)glm_ivec2_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec3_abs(Call*c){ glm_ivec3_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec3_eq(Call*c){ c->ri=(int)glm_ivec3_eq(VOIDP c->p[0], c->i[1]); }
static void i_ivec3_eqv(Call*c){ c->ri=(int)glm_ivec3_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ivec4_abs(Call*c){ glm_ivec4_abs(VOIDP c->p[0], VOIDP c->p[1]); }
#endif
#if defined(W_C03) || defined(W_ALL)
static void i_vec2_abs(Call*c){ glm_vec2_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_eq(Call*c){ c->ri=(int)glm_vec2_eq(VOIDP c->p[0], c->f[1]); }
static void i_vec2_eq_all(Call*c){ c->ri=(int)glm_vec2_eq_all(VOIDP c->p[0]); }
static void i_vec2_eq_eps(Call*c){ c->ri=(int)glm_vec2_eq_eps(VOIDP c->p[0], c->f[1]); }
static void i_vec2_eqv(Call*c){ c->ri=(int)glm_vec2_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_eqv_eps(Call*c){ c->ri=(int)glm_vec2_eqv_eps(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_floor(Call*c){ glm_vec2_floor(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_fract(Call*c){ glm_vec2_fract(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_isinf(Call*c){ c->ri=(int)glm_vec2_isinf(VOIDP c->p[0]); }
static void i_vec2_isnan(Call*c){ c->ri=(int)glm_vec2_isnan(VOIDP c->p[0]); }
static void i_vec2_isvalid(Call*c){ c->ri=(int)glm_vec2_isvalid(VOIDP c->p[0]); }
static void i_vec2_max(Call*c){ c->rf=glm_vec2_max(VOIDP c->p[0]); }
static void i_vec2_min(Call*c){ c->rf=glm_vec2_min(VOIDP c->p[0]); }
static void i_vec2_mods(Call*c){ glm_vec2_mods(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_sign(Call*c){ glm_vec2_sign(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_sqrt(Call*c){ glm_vec2_sqrt(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_swizzle(Call*c){ glm_vec2_swizzle(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_vec3_abs(Call*c){ glm_vec3_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_eq(Call*c){ c->ri=(int)glm_vec3_eq(VOIDP c->p[0], c->f[1]); }
static void i_vec3_eq_all(Call*c){ c->ri=(int)glm_vec3_eq_all(VOIDP c->p[0]); }
static void i_vec3_eq_eps(Call*c){ c->ri=(int)glm_vec3_eq_eps(VOIDP c->p[0], c->f[1]); }
static void i_vec3_eqv(Call*c){ c->ri=(int)glm_vec3_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_eqv_eps(Call*c){ c->ri=(int)glm_vec3_eqv_eps(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_floor(Call*c){ glm_vec3_floor(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_fract(Call*c){ glm_vec3_fract(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_isinf(Call*c){ c->ri=(int)glm_vec3_isinf(VOIDP c->p[0]); }
static void i_vec3_isnan(Call*c){ c->ri=(int)glm_vec3_isnan(VOIDP c->p[0]); }
static void i_vec3_isvalid(Call*c){ c->ri=(int)glm_vec3_isvalid(VOIDP c->p[0]); }
static void i_vec3_max(Call*c){ c->rf=glm_vec3_max(VOIDP c->p[0]); }
static void i_vec3_min(Call*c){ c->rf=glm_vec3_min(VOIDP c->p[0]); }
static void i_vec3_mods(Call*c){ glm_vec3_mods(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_sign(Call*c){ glm_vec3_sign(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_sqrt(Call*c){ glm_vec3_sqrt(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_swizzle(Call*c){ glm_vec3_swizzle(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_vec4_abs(Call*c){ glm_vec4_abs(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_eq(Call*c){ c->ri=(int)glm_vec4_eq(VOIDP c->p[0], c->f[1]); }
static void i_vec4_eq_all(Call*c){ c->ri=(int)glm_vec4_eq_all(VOIDP c->p[0]); }
static void i_vec4_eq_eps(Call*c){ c->ri=(int)glm_vec4_eq_eps(VOIDP c->p[0], c->f[1]); }
static void i_vec4_eqv(Call*c){ c->ri=(int)glm_vec4_eqv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_eqv_eps(Call*c){ c->ri=(int)glm_vec4_eqv_eps(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_floor(Call*c){ glm_vec4_floor(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_fract(Call*c){ glm_vec4_fract(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_isinf(Call*c){ c->ri=(int)glm_vec4_isinf(VOIDP c->p[0]); }
static void i_vec4_isnan(Call*c){ c->ri=(int)glm_vec4_isnan(VOIDP c->p[0]); }
static void i_vec4_isvalid(Call*c){ c->ri=(int)glm_vec4_isvalid(VOIDP c->p[0]); }
static void i_vec4_max(Call*c){ c->rf=glm_vec4_max(VOIDP c->p[0]); }
static void i_vec4_min(Call*c){ c->rf=glm_vec4_min(VOIDP c->p[0]); }
static void i_vec4_mods(Call*c){ glm_vec4_mods(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_sign(Call*c){ glm_vec4_sign(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_sqrt(Call*c){ glm_vec4_sqrt(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_swizzle(Call*c){ glm_vec4_swizzle(VOIDP c->p[0], c->i[1], VOIDP c->p[2]); }
static void i_const_xxx(Call*c){ c->ri=(int)(GLM_XXX); }
static void i_const_yyy(Call*c){ c->ri=(int)(GLM_YYY); }
static void i_const_zzz(Call*c){ c->ri=(int)(GLM_ZZZ); }
static void i_const_zyx(Call*c){ c->ri=(int)(GLM_ZYX); }
static void i_const_xxxx(Call*c){ c->ri=(int)(GLM_XXXX); }
static void i_const_yyyy(Call*c){ c->ri=(int)(GLM_YYYY); }
static void i_const_zzzz(Call*c){ c->ri=(int)(GLM_ZZZZ); }
static void i_const_wwww(Call*c){ c->ri=(int)(GLM_WWWW); }
static void i_const_wzyx(Call*c){ c->ri=(int)(GLM_WZYX); }
static void i_shuffle2(Call*c){ c->ri=GLM_SHUFFLE2(c->i[0],c->i[1]); }
static void i_shuffle3(Call*c){ c->ri=GLM_SHUFFLE3(c->i[0],c->i[1],c->i[2]); }
static void i_shuffle4(Call*c){ c->ri=GLM_SHUFFLE4(c->i[0],c->i[1],c->i[2],c->i[3]); }
#endif
#if defined(W_C03) || defined(W_C04) || defined(W_ALL)
static void i_vec2_step(Call*c){ glm_vec2_step(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_stepr(Call*c){ glm_vec2_stepr(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_steps(Call*c){ glm_vec2_steps(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_step(Call*c){ glm_vec3_step(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_step_uni(Call*c){ glm_vec3_step_uni(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_stepr(Call*c){ glm_vec3_stepr(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_steps(Call*c){ glm_vec3_steps(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_step(Call*c){ glm_vec4_step(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_step_uni(Call*c){ glm_vec4_step_uni(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_stepr(Call*c){ glm_vec4_stepr(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_steps(Call*c){ glm_vec4_steps(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C04) || defined(W_ALL)
static void i_clamp(Call*c){ c->rf=glm_clamp(c->f[0], c->f[1], c->f[2]); }
static void i_deg(Call*c){ c->rf=glm_deg(c->f[0]); }
static void i_eq(Call*c){ c->ri=(int)glm_eq(c->f[0], c->f[1]); }
static void i_imax(Call*c){ c->ri=(int)glm_imax(c->i[0], c->i[1]); }
static void i_imin(Call*c){ c->ri=(int)glm_imin(c->i[0], c->i[1]); }
static void i_lerp(Call*c){ c->rf=glm_lerp(c->f[0], c->f[1], c->f[2]); }
static void i_lerpc(Call*c){ c->rf=glm_lerpc(c->f[0], c->f[1], c->f[2]); }
static void i_luminance(Call*c){ c->rf=glm_luminance(VOIDP c->p[0]); }
static void i_make_deg(Call*c){ glm_make_deg(VOIDP c->p[0]); }
static void i_make_rad(Call*c){ glm_make_rad(VOIDP c->p[0]); }
static void i_max(Call*c){ c->rf=glm_max(c->f[0], c->f[1]); }
static void i_min(Call*c){ c->rf=glm_min(c->f[0], c->f[1]); }
static void i_percent(Call*c){ c->rf=glm_percent(c->f[0], c->f[1], c->f[2]); }
static void i_percentc(Call*c){ c->rf=glm_percentc(c->f[0], c->f[1], c->f[2]); }
static void i_pow2(Call*c){ c->rf=glm_pow2(c->f[0]); }
static void i_rad(Call*c){ c->rf=glm_rad(c->f[0]); }
static void i_sign(Call*c){ c->ri=(int)glm_sign(c->i[0]); }
static void i_signf(Call*c){ c->rf=glm_signf(c->f[0]); }
static void i_smooth(Call*c){ c->rf=glm_smooth(c->f[0]); }
static void i_smoothinterp(Call*c){ c->rf=glm_smoothinterp(c->f[0], c->f[1], c->f[2]); }
static void i_smoothinterpc(Call*c){ c->rf=glm_smoothinterpc(c->f[0], c->f[1], c->f[2]); }
static void i_smoothstep(Call*c){ c->rf=glm_smoothstep(c->f[0], c->f[1], c->f[2]); }
static void i_step(Call*c){ c->rf=glm_step(c->f[0], c->f[1]); }
static void i_swapf(Call*c){ glm_swapf(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_lerp(Call*c){ glm_vec2_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_lerp(Call*c){ glm_vec3_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_lerpc(Call*c){ glm_vec3_lerpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_mix(Call*c){ glm_vec3_mix(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_mixc(Call*c){ glm_vec3_mixc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_smoothinterp(Call*c){ glm_vec3_smoothinterp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_smoothinterpc(Call*c){ glm_vec3_smoothinterpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_smoothstep(Call*c){ glm_vec3_smoothstep(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_vec3_smoothstep_uni(Call*c){ glm_vec3_smoothstep_uni(c->f[0], c->f[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_vec4_lerp(Call*c){ glm_vec4_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec4_lerpc(Call*c){ glm_vec4_lerpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec4_mix(Call*c){ glm_vec4_mix(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec4_mixc(Call*c){ glm_vec4_mixc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec4_smoothinterp(Call*c){ glm_vec4_smoothinterp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec4_smoothinterpc(Call*c){ glm_vec4_smoothinterpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec4_smoothstep(Call*c){ glm_vec4_smoothstep(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_vec4_smoothstep_uni(Call*c){ glm_vec4_smoothstep_uni(c->f[0], c->f[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_macro_min(Call*c){ c->rf=GLM_MIN(c->f[0],c->f[1]); }
static void i_macro_max(Call*c){ c->rf=GLM_MAX(c->f[0],c->f[1]); }
static void i_const_e(Call*c){ c->rf=(float)GLM_E; }
static void i_const_ef(Call*c){ c->rf=GLM_Ef; }
static void i_const_log2e(Call*c){ c->rf=(float)GLM_LOG2E; }
static void i_const_log2ef(Call*c){ c->rf=GLM_LOG2Ef; }
static void i_const_log10e(Call*c){ c->rf=(float)GLM_LOG10E; }
static void i_const_log10ef(Call*c){ c->rf=GLM_LOG10Ef; }
static void i_const_ln2(Call*c){ c->rf=(float)GLM_LN2; }
static void i_const_ln2f(Call*c){ c->rf=GLM_LN2f; }
static void i_const_ln10(Call*c){ c->rf=(float)GLM_LN10; }
static void i_const_ln10f(Call*c){ c->rf=GLM_LN10f; }
static void i_const_pi(Call*c){ c->rf=(float)GLM_PI; }
static void i_const_pif(Call*c){ c->rf=GLM_PIf; }
static void i_const_pi_2(Call*c){ c->rf=(float)GLM_PI_2; }
static void i_const_pi_2f(Call*c){ c->rf=GLM_PI_2f; }
static void i_const_pi_4(Call*c){ c->rf=(float)GLM_PI_4; }
static void i_const_pi_4f(Call*c){ c->rf=GLM_PI_4f; }
static void i_const_1_pi(Call*c){ c->rf=(float)GLM_1_PI; }
static void i_const_1_pif(Call*c){ c->rf=GLM_1_PIf; }
static void i_const_2_pi(Call*c){ c->rf=(float)GLM_2_PI; }
static void i_const_2_pif(Call*c){ c->rf=GLM_2_PIf; }
static void i_const_tau(Call*c){ c->rf=(float)GLM_TAU; }
static void i_const_tauf(Call*c){ c->rf=GLM_TAUf; }
static void i_const_tau_2(Call*c){ c->rf=(float)GLM_TAU_2; }
static void i_const_tau_2f(Call*c){ c->rf=GLM_TAU_2f; }
static void i_const_tau_4(Call*c){ c->rf=(float)GLM_TAU_4; }
static void i_const_tau_4f(Call*c){ c->rf=GLM_TAU_4f; }
static void i_const_1_tau(Call*c){ c->rf=(float)GLM_1_TAU; }
static void i_const_1_tauf(Call*c){ c->rf=GLM_1_TAUf; }
static void i_const_2_tau(Call*c){ c->rf=(float)GLM_2_TAU; }
static void i_const_2_tauf(Call*c){ c->rf=GLM_2_TAUf; }
static void i_const_sqrt2(Call*c){ c->rf=(float)GLM_SQRT2; }
static void i_const_sqrt2f(Call*c){ c->rf=GLM_SQRT2f; }
static void i_const_sqrt1_2(Call*c){ c->rf=(float)GLM_SQRT1_2; }
static void i_const_sqrt1_2f(Call*c){ c->rf=GLM_SQRT1_2f; }
static void i_const_2_sqrtpif(Call*c){ c->rf=GLM_2_SQRTPIf; }
static void i_const_2_sqrtpi(Call*c){ c->rf=(float)GLM_2_SQRTPI; }
static void i_const_sqrttau(Call*c){ c->rf=(float)GLM_SQRTTAU; }
static void i_const_pi_old(Call*c){ c->rf=(float)CGLM_PI; }
static void i_const_pi_2_old(Call*c){ c->rf=(float)CGLM_PI_2; }
static void i_const_pi_4_old(Call*c){ c->rf=(float)CGLM_PI_4; }
#endif
#if (defined(W_C04) || defined(W_ALL)) && !defined(PLAIN)
static void i_clamp_zo(Call*c){ c->rf=glm_clamp_zo(c->f[0]); }
#endif
#if defined(W_C05) || defined(W_ALL)
static void i_normalize(Call*c){ glm_normalize(VOIDP c->p[0]); }
static void i_normalize_to(Call*c){ glm_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_center(Call*c){ glm_vec2_center(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_normalize(Call*c){ glm_vec2_normalize(VOIDP c->p[0]); }
static void i_vec2_normalize_to(Call*c){ glm_vec2_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec2_reflect(Call*c){ glm_vec2_reflect(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec2_refract(Call*c){ c->ri=(int)glm_vec2_refract(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec2_rotate(Call*c){ glm_vec2_rotate(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec2_scale_as(Call*c){ glm_vec2_scale_as(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_angle(Call*c){ c->rf=glm_vec3_angle(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_center(Call*c){ glm_vec3_center(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_crossn(Call*c){ glm_vec3_crossn(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_faceforward(Call*c){ glm_vec3_faceforward(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_vec3_normalize(Call*c){ glm_vec3_normalize(VOIDP c->p[0]); }
static void i_vec3_normalize_to(Call*c){ glm_vec3_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_ortho(Call*c){ glm_vec3_ortho(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec3_proj(Call*c){ glm_vec3_proj(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_reflect(Call*c){ glm_vec3_reflect(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_refract(Call*c){ c->ri=(int)glm_vec3_refract(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec3_rotate(Call*c){ glm_vec3_rotate(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec3_rotate_m3(Call*c){ glm_vec3_rotate_m3(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_rotate_m4(Call*c){ glm_vec3_rotate_m4(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec3_scale_as(Call*c){ glm_vec3_scale_as(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_vec4_normalize(Call*c){ glm_vec4_normalize(VOIDP c->p[0]); }
static void i_vec4_normalize_to(Call*c){ glm_vec4_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_vec4_reflect(Call*c){ glm_vec4_reflect(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_vec4_refract(Call*c){ c->ri=(int)glm_vec4_refract(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_vec4_scale_as(Call*c){ glm_vec4_scale_as(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
#endif
#if defined(W_C06) || defined(W_ALL)
static void i_mat2_copy(Call*c){ glm_mat2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2_identity(Call*c){ glm_mat2_identity(VOIDP c->p[0]); }
static void i_mat2_identity_array(Call*c){ glm_mat2_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void i_mat2_make(Call*c){ glm_mat2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2_mul(Call*c){ glm_mat2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat2_mulv(Call*c){ glm_mat2_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat2_rmc(Call*c){ c->rf=glm_mat2_rmc(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat2_scale(Call*c){ glm_mat2_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat2_swap_col(Call*c){ glm_mat2_swap_col(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_mat2_swap_row(Call*c){ glm_mat2_swap_row(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_mat2_trace(Call*c){ c->rf=glm_mat2_trace(VOIDP c->p[0]); }
static void i_mat2_transpose(Call*c){ glm_mat2_transpose(VOIDP c->p[0]); }
static void i_mat2_transpose_to(Call*c){ glm_mat2_transpose_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2_zero(Call*c){ glm_mat2_zero(VOIDP c->p[0]); }
static void i_mat2x3_copy(Call*c){ glm_mat2x3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2x3_make(Call*c){ glm_mat2x3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2x3_mul(Call*c){ glm_mat2x3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat2x3_mulv(Call*c){ glm_mat2x3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat2x3_scale(Call*c){ glm_mat2x3_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat2x3_transpose(Call*c){ glm_mat2x3_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2x3_zero(Call*c){ glm_mat2x3_zero(VOIDP c->p[0]); }
static void i_mat2x4_copy(Call*c){ glm_mat2x4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2x4_make(Call*c){ glm_mat2x4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2x4_mul(Call*c){ glm_mat2x4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat2x4_mulv(Call*c){ glm_mat2x4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat2x4_scale(Call*c){ glm_mat2x4_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat2x4_transpose(Call*c){ glm_mat2x4_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat2x4_zero(Call*c){ glm_mat2x4_zero(VOIDP c->p[0]); }
static void i_mat3_copy(Call*c){ glm_mat3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3_dup(Call*c){ glm_mat3_dup(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3_identity(Call*c){ glm_mat3_identity(VOIDP c->p[0]); }
static void i_mat3_identity_array(Call*c){ glm_mat3_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void i_mat3_make(Call*c){ glm_mat3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3_mul(Call*c){ glm_mat3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat3_mulv(Call*c){ glm_mat3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat3_rmc(Call*c){ c->rf=glm_mat3_rmc(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat3_scale(Call*c){ glm_mat3_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat3_swap_col(Call*c){ glm_mat3_swap_col(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_mat3_swap_row(Call*c){ glm_mat3_swap_row(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_mat3_trace(Call*c){ c->rf=glm_mat3_trace(VOIDP c->p[0]); }
static void i_mat3_transpose(Call*c){ glm_mat3_transpose(VOIDP c->p[0]); }
static void i_mat3_transpose_to(Call*c){ glm_mat3_transpose_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3_zero(Call*c){ glm_mat3_zero(VOIDP c->p[0]); }
static void i_mat3x2_copy(Call*c){ glm_mat3x2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3x2_make(Call*c){ glm_mat3x2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3x2_mul(Call*c){ glm_mat3x2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat3x2_mulv(Call*c){ glm_mat3x2_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat3x2_scale(Call*c){ glm_mat3x2_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat3x2_transpose(Call*c){ glm_mat3x2_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3x2_zero(Call*c){ glm_mat3x2_zero(VOIDP c->p[0]); }
static void i_mat3x4_copy(Call*c){ glm_mat3x4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3x4_make(Call*c){ glm_mat3x4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3x4_mul(Call*c){ glm_mat3x4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat3x4_mulv(Call*c){ glm_mat3x4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat3x4_scale(Call*c){ glm_mat3x4_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat3x4_transpose(Call*c){ glm_mat3x4_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3x4_zero(Call*c){ glm_mat3x4_zero(VOIDP c->p[0]); }
static void i_mat4_copy(Call*c){ glm_mat4_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_dup(Call*c){ glm_mat4_dup(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_identity(Call*c){ glm_mat4_identity(VOIDP c->p[0]); }
static void i_mat4_identity_array(Call*c){ glm_mat4_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void i_mat4_ins3(Call*c){ glm_mat4_ins3(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_make(Call*c){ glm_mat4_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_mul(Call*c){ glm_mat4_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat4_mulN(Call*c){ mat4*ms[8]; for(int k=0;k<c->i[1];k++) ms[k]=(mat4*)((float*)c->p[0]+16*(k&3)); glm_mat4_mulN(ms,(uint32_t)c->i[1],VOIDP c->p[2]); }
static void i_mat4_mulv(Call*c){ glm_mat4_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat4_mulv3(Call*c){ glm_mat4_mulv3(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_mat4_pick3(Call*c){ glm_mat4_pick3(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_pick3t(Call*c){ glm_mat4_pick3t(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_rmc(Call*c){ c->rf=glm_mat4_rmc(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat4_scale(Call*c){ glm_mat4_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat4_scale_p(Call*c){ glm_mat4_scale_p(VOIDP c->p[0], c->f[1]); }
static void i_mat4_swap_col(Call*c){ glm_mat4_swap_col(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_mat4_swap_row(Call*c){ glm_mat4_swap_row(VOIDP c->p[0], c->i[1], c->i[2]); }
static void i_mat4_trace(Call*c){ c->rf=glm_mat4_trace(VOIDP c->p[0]); }
static void i_mat4_trace3(Call*c){ c->rf=glm_mat4_trace3(VOIDP c->p[0]); }
static void i_mat4_transpose(Call*c){ glm_mat4_transpose(VOIDP c->p[0]); }
static void i_mat4_transpose_to(Call*c){ glm_mat4_transpose_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_ucopy(Call*c){ glm_mat4_ucopy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_udup(Call*c){ glm_mat4_udup(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_zero(Call*c){ glm_mat4_zero(VOIDP c->p[0]); }
static void i_mat4x2_copy(Call*c){ glm_mat4x2_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4x2_make(Call*c){ glm_mat4x2_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4x2_mul(Call*c){ glm_mat4x2_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat4x2_mulv(Call*c){ glm_mat4x2_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat4x2_scale(Call*c){ glm_mat4x2_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat4x2_transpose(Call*c){ glm_mat4x2_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4x2_zero(Call*c){ glm_mat4x2_zero(VOIDP c->p[0]); }
static void i_mat4x3_copy(Call*c){ glm_mat4x3_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4x3_make(Call*c){ glm_mat4x3_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4x3_mul(Call*c){ glm_mat4x3_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat4x3_mulv(Call*c){ glm_mat4x3_mulv(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mat4x3_scale(Call*c){ glm_mat4x3_scale(VOIDP c->p[0], c->f[1]); }
static void i_mat4x3_transpose(Call*c){ glm_mat4x3_transpose(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4x3_zero(Call*c){ glm_mat4x3_zero(VOIDP c->p[0]); }
static void i_const_mat2_zero_init(Call*c){ mat2 x=GLM_MAT2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat2_identity_init(Call*c){ mat2 x=GLM_MAT2_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat2x3_zero_init(Call*c){ mat2x3 x=GLM_MAT2X3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat2x3_zero(Call*c){ mat2x3 x=GLM_MAT2X3_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat2x4_zero_init(Call*c){ mat2x4 x=GLM_MAT2X4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat2x4_zero(Call*c){ mat2x4 x=GLM_MAT2X4_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3x2_zero_init(Call*c){ mat3x2 x=GLM_MAT3X2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3x2_zero(Call*c){ mat3x2 x=GLM_MAT3X2_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3_zero_init(Call*c){ mat3 x=GLM_MAT3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3_identity_init(Call*c){ mat3 x=GLM_MAT3_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3x4_zero_init(Call*c){ mat3x4 x=GLM_MAT3X4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3x4_zero(Call*c){ mat3x4 x=GLM_MAT3X4_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4x2_zero_init(Call*c){ mat4x2 x=GLM_MAT4X2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4x2_zero(Call*c){ mat4x2 x=GLM_MAT4X2_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4x3_zero_init(Call*c){ mat4x3 x=GLM_MAT4X3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4x3_zero(Call*c){ mat4x3 x=GLM_MAT4X3_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4_zero_init(Call*c){ mat4 x=GLM_MAT4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4_identity_init(Call*c){ mat4 x=GLM_MAT4_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C07) || defined(W_ALL)
static void i_mat2_det(Call*c){ c->rf=glm_mat2_det(VOIDP c->p[0]); }
static void i_mat2_inv(Call*c){ glm_mat2_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat3_det(Call*c){ c->rf=glm_mat3_det(VOIDP c->p[0]); }
static void i_mat3_inv(Call*c){ glm_mat3_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_det(Call*c){ c->rf=glm_mat4_det(VOIDP c->p[0]); }
static void i_mat4_inv(Call*c){ glm_mat4_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_inv_fast(Call*c){ glm_mat4_inv_fast(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_inv_precise(Call*c){ glm_mat4_inv_precise(VOIDP c->p[0], VOIDP c->p[1]); }
#endif
#if defined(W_C08) || defined(W_ALL)
static void i_decompose(Call*c){ glm_decompose(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_decompose_rs(Call*c){ glm_decompose_rs(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_decompose_scalev(Call*c){ glm_decompose_scalev(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_inv_tr(Call*c){ glm_inv_tr(VOIDP c->p[0]); }
static void i_mul(Call*c){ glm_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_mul_rot(Call*c){ glm_mul_rot(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_rotate(Call*c){ glm_rotate(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotate_at(Call*c){ glm_rotate_at(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_rotate_atm(Call*c){ glm_rotate_atm(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_rotate_make(Call*c){ glm_rotate_make(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotate_x(Call*c){ glm_rotate_x(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotate_y(Call*c){ glm_rotate_y(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotate_z(Call*c){ glm_rotate_z(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotated(Call*c){ glm_rotated(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotated_at(Call*c){ glm_rotated_at(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_rotated_x(Call*c){ glm_rotated_x(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotated_y(Call*c){ glm_rotated_y(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotated_z(Call*c){ glm_rotated_z(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_scale(Call*c){ glm_scale(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_scale_make(Call*c){ glm_scale_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_scale_to(Call*c){ glm_scale_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_scale_uni(Call*c){ glm_scale_uni(VOIDP c->p[0], c->f[1]); }
static void i_spin(Call*c){ glm_spin(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_spinned(Call*c){ glm_spinned(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_translate(Call*c){ glm_translate(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_translate_make(Call*c){ glm_translate_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_translate_to(Call*c){ glm_translate_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_translate_x(Call*c){ glm_translate_x(VOIDP c->p[0], c->f[1]); }
static void i_translate_y(Call*c){ glm_translate_y(VOIDP c->p[0], c->f[1]); }
static void i_translate_z(Call*c){ glm_translate_z(VOIDP c->p[0], c->f[1]); }
static void i_translated(Call*c){ glm_translated(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_translated_to(Call*c){ glm_translated_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_translated_x(Call*c){ glm_translated_x(VOIDP c->p[0], c->f[1]); }
static void i_translated_y(Call*c){ glm_translated_y(VOIDP c->p[0], c->f[1]); }
static void i_translated_z(Call*c){ glm_translated_z(VOIDP c->p[0], c->f[1]); }
static void i_uniscaled(Call*c){ c->ri=(int)glm_uniscaled(VOIDP c->p[0]); }
#endif
#if defined(W_C09) || defined(W_ALL)
static void i_mat3_textrans(Call*c){ glm_mat3_textrans(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], VOIDP c->p[5]); }
static void i_mat4_textrans(Call*c){ glm_mat4_textrans(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], VOIDP c->p[5]); }
static void i_rotate2d(Call*c){ glm_rotate2d(VOIDP c->p[0], c->f[1]); }
static void i_rotate2d_make(Call*c){ glm_rotate2d_make(VOIDP c->p[0], c->f[1]); }
static void i_rotate2d_to(Call*c){ glm_rotate2d_to(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_rotated2d(Call*c){ glm_rotated2d(VOIDP c->p[0], c->f[1]); }
static void i_scale2d(Call*c){ glm_scale2d(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_scale2d_make(Call*c){ glm_scale2d_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_scale2d_to(Call*c){ glm_scale2d_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_scale2d_uni(Call*c){ glm_scale2d_uni(VOIDP c->p[0], c->f[1]); }
static void i_scaled2d(Call*c){ glm_scaled2d(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_scaled2d_uni(Call*c){ glm_scaled2d_uni(VOIDP c->p[0], c->f[1]); }
static void i_translate2d(Call*c){ glm_translate2d(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_translate2d_make(Call*c){ glm_translate2d_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_translate2d_to(Call*c){ glm_translate2d_to(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_translate2d_x(Call*c){ glm_translate2d_x(VOIDP c->p[0], c->f[1]); }
static void i_translate2d_y(Call*c){ glm_translate2d_y(VOIDP c->p[0], c->f[1]); }
static void i_translated2d(Call*c){ glm_translated2d(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_translated2d_x(Call*c){ glm_translated2d_x(VOIDP c->p[0], c->f[1]); }
static void i_translated2d_y(Call*c){ glm_translated2d_y(VOIDP c->p[0], c->f[1]); }
#endif
#if defined(W_C10) || defined(W_ALL)
static void i_quat(Call*c){ glm_quat(VOIDP c->p[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void i_quat_add(Call*c){ glm_quat_add(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quat_angle(Call*c){ c->rf=glm_quat_angle(VOIDP c->p[0]); }
static void i_quat_axis(Call*c){ glm_quat_axis(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_conjugate(Call*c){ glm_quat_conjugate(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_copy(Call*c){ glm_quat_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_dot(Call*c){ c->rf=glm_quat_dot(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_from_vecs(Call*c){ glm_quat_from_vecs(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quat_identity(Call*c){ glm_quat_identity(VOIDP c->p[0]); }
static void i_quat_identity_array(Call*c){ glm_quat_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void i_quat_imag(Call*c){ glm_quat_imag(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_imaglen(Call*c){ c->rf=glm_quat_imaglen(VOIDP c->p[0]); }
static void i_quat_imagn(Call*c){ glm_quat_imagn(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_init(Call*c){ glm_quat_init(VOIDP c->p[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void i_quat_inv(Call*c){ glm_quat_inv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_make(Call*c){ glm_quat_make(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_mul(Call*c){ glm_quat_mul(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quat_norm(Call*c){ c->rf=glm_quat_norm(VOIDP c->p[0]); }
static void i_quat_normalize(Call*c){ glm_quat_normalize(VOIDP c->p[0]); }
static void i_quat_normalize_to(Call*c){ glm_quat_normalize_to(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_real(Call*c){ c->rf=glm_quat_real(VOIDP c->p[0]); }
static void i_quat_sub(Call*c){ glm_quat_sub(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quatv(Call*c){ glm_quatv(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_const_quat_identity_init(Call*c){ versor x=GLM_QUAT_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C10) || defined(W_C11) || defined(W_ALL)
static void i_quat_rotatev(Call*c){ glm_quat_rotatev(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C11) || defined(W_ALL)
static void i_mat3_quat(Call*c){ glm_mat3_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_mat4_quat(Call*c){ glm_mat4_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_for(Call*c){ glm_quat_for(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quat_forp(Call*c){ glm_quat_forp(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_quat_look(Call*c){ glm_quat_look(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quat_mat3(Call*c){ glm_quat_mat3(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_mat3t(Call*c){ glm_quat_mat3t(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_mat4(Call*c){ glm_quat_mat4(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_mat4t(Call*c){ glm_quat_mat4t(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_quat_rotate(Call*c){ glm_quat_rotate(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quat_rotate_at(Call*c){ glm_quat_rotate_at(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_quat_rotate_atm(Call*c){ glm_quat_rotate_atm(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C12) || defined(W_ALL)
static void i_quat_lerp(Call*c){ glm_quat_lerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_quat_lerpc(Call*c){ glm_quat_lerpc(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_quat_nlerp(Call*c){ glm_quat_nlerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_quat_slerp(Call*c){ glm_quat_slerp(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_quat_slerp_longest(Call*c){ glm_quat_slerp_longest(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
#endif
#if defined(W_C13) || defined(W_ALL)
static void i_euler(Call*c){ glm_euler(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_angles(Call*c){ glm_euler_angles(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_by_order(Call*c){ glm_euler_by_order(VOIDP c->p[0], (glm_euler_seq)c->i[1], VOIDP c->p[2]); }
static void i_euler_order(Call*c){ c->ri=(int)glm_euler_order(VOIDP c->p[0]); }
static void i_euler_xyz(Call*c){ glm_euler_xyz(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_xyz_quat(Call*c){ glm_euler_xyz_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_xzy(Call*c){ glm_euler_xzy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_xzy_quat(Call*c){ glm_euler_xzy_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yxz(Call*c){ glm_euler_yxz(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yxz_quat(Call*c){ glm_euler_yxz_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yzx(Call*c){ glm_euler_yzx(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yzx_quat(Call*c){ glm_euler_yzx_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zxy(Call*c){ glm_euler_zxy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zxy_quat(Call*c){ glm_euler_zxy_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zyx(Call*c){ glm_euler_zyx(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zyx_quat(Call*c){ glm_euler_zyx_quat(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_const_euler_xyz(Call*c){ c->ri=(int)(GLM_EULER_XYZ); }
static void i_const_euler_xzy(Call*c){ c->ri=(int)(GLM_EULER_XZY); }
static void i_const_euler_yxz(Call*c){ c->ri=(int)(GLM_EULER_YXZ); }
static void i_const_euler_yzx(Call*c){ c->ri=(int)(GLM_EULER_YZX); }
static void i_const_euler_zxy(Call*c){ c->ri=(int)(GLM_EULER_ZXY); }
static void i_const_euler_zyx(Call*c){ c->ri=(int)(GLM_EULER_ZYX); }
#endif
#if (defined(W_C13) || defined(W_ALL)) && !defined(PLAIN)
static void i_euler_xyz_quat_lh(Call*c){ glm_euler_xyz_quat_lh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_xyz_quat_rh(Call*c){ glm_euler_xyz_quat_rh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_xzy_quat_lh(Call*c){ glm_euler_xzy_quat_lh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_xzy_quat_rh(Call*c){ glm_euler_xzy_quat_rh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yxz_quat_lh(Call*c){ glm_euler_yxz_quat_lh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yxz_quat_rh(Call*c){ glm_euler_yxz_quat_rh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yzx_quat_lh(Call*c){ glm_euler_yzx_quat_lh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_yzx_quat_rh(Call*c){ glm_euler_yzx_quat_rh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zxy_quat_lh(Call*c){ glm_euler_zxy_quat_lh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zxy_quat_rh(Call*c){ glm_euler_zxy_quat_rh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zyx_quat_lh(Call*c){ glm_euler_zyx_quat_lh(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_euler_zyx_quat_rh(Call*c){ glm_euler_zyx_quat_rh(VOIDP c->p[0], VOIDP c->p[1]); }
#endif
#if defined(W_C14) || defined(W_ALL)
static void i_look(Call*c){ glm_look(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_look_anyup(Call*c){ glm_look_anyup(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_lookat(Call*c){ glm_lookat(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
#endif
#if (defined(W_C14) || defined(W_ALL)) && !defined(PLAIN)
static void i_look_anyup_lh(Call*c){ glm_look_anyup_lh(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_look_anyup_lh_no(Call*c){ glm_look_anyup_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_look_anyup_lh_zo(Call*c){ glm_look_anyup_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_look_anyup_rh(Call*c){ glm_look_anyup_rh(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_look_anyup_rh_no(Call*c){ glm_look_anyup_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_look_anyup_rh_zo(Call*c){ glm_look_anyup_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_look_lh(Call*c){ glm_look_lh(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_look_lh_no(Call*c){ glm_look_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_look_lh_zo(Call*c){ glm_look_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_look_rh(Call*c){ glm_look_rh(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_look_rh_no(Call*c){ glm_look_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_look_rh_zo(Call*c){ glm_look_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_lookat_lh(Call*c){ glm_lookat_lh(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_lookat_lh_no(Call*c){ glm_lookat_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_lookat_lh_zo(Call*c){ glm_lookat_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_lookat_rh(Call*c){ glm_lookat_rh(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_lookat_rh_no(Call*c){ glm_lookat_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_lookat_rh_zo(Call*c){ glm_lookat_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
#endif
#if defined(W_C15) || defined(W_ALL)
static void i_frustum(Call*c){ glm_frustum(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_ortho(Call*c){ glm_ortho(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_ortho_aabb(Call*c){ glm_ortho_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ortho_aabb_p(Call*c){ glm_ortho_aabb_p(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_pz(Call*c){ glm_ortho_aabb_pz(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_default(Call*c){ glm_ortho_default(c->f[0], VOIDP c->p[1]); }
static void i_ortho_default_s(Call*c){ glm_ortho_default_s(c->f[0], c->f[1], VOIDP c->p[2]); }
static void i_perspective(Call*c){ glm_perspective(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void i_perspective_default(Call*c){ glm_perspective_default(c->f[0], VOIDP c->p[1]); }
#endif
#if (defined(W_C15) || defined(W_ALL)) && !defined(PLAIN)
static void i_frustum_lh_no(Call*c){ glm_frustum_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_frustum_lh_zo(Call*c){ glm_frustum_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_frustum_rh_no(Call*c){ glm_frustum_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_frustum_rh_zo(Call*c){ glm_frustum_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_ortho_aabb_lh_no(Call*c){ glm_ortho_aabb_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ortho_aabb_lh_zo(Call*c){ glm_ortho_aabb_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ortho_aabb_p_lh_no(Call*c){ glm_ortho_aabb_p_lh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_p_lh_zo(Call*c){ glm_ortho_aabb_p_lh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_p_rh_no(Call*c){ glm_ortho_aabb_p_rh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_p_rh_zo(Call*c){ glm_ortho_aabb_p_rh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_pz_lh_no(Call*c){ glm_ortho_aabb_pz_lh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_pz_lh_zo(Call*c){ glm_ortho_aabb_pz_lh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_pz_rh_no(Call*c){ glm_ortho_aabb_pz_rh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_pz_rh_zo(Call*c){ glm_ortho_aabb_pz_rh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_aabb_rh_no(Call*c){ glm_ortho_aabb_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ortho_aabb_rh_zo(Call*c){ glm_ortho_aabb_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_ortho_default_lh_no(Call*c){ glm_ortho_default_lh_no(c->f[0], VOIDP c->p[1]); }
static void i_ortho_default_lh_zo(Call*c){ glm_ortho_default_lh_zo(c->f[0], VOIDP c->p[1]); }
static void i_ortho_default_rh_no(Call*c){ glm_ortho_default_rh_no(c->f[0], VOIDP c->p[1]); }
static void i_ortho_default_rh_zo(Call*c){ glm_ortho_default_rh_zo(c->f[0], VOIDP c->p[1]); }
static void i_ortho_default_s_lh_no(Call*c){ glm_ortho_default_s_lh_no(c->f[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_default_s_lh_zo(Call*c){ glm_ortho_default_s_lh_zo(c->f[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_default_s_rh_no(Call*c){ glm_ortho_default_s_rh_no(c->f[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_default_s_rh_zo(Call*c){ glm_ortho_default_s_rh_zo(c->f[0], c->f[1], VOIDP c->p[2]); }
static void i_ortho_lh_no(Call*c){ glm_ortho_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_ortho_lh_zo(Call*c){ glm_ortho_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_ortho_rh_no(Call*c){ glm_ortho_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_ortho_rh_zo(Call*c){ glm_ortho_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5], VOIDP c->p[6]); }
static void i_perspective_default_lh_no(Call*c){ glm_perspective_default_lh_no(c->f[0], VOIDP c->p[1]); }
static void i_perspective_default_lh_zo(Call*c){ glm_perspective_default_lh_zo(c->f[0], VOIDP c->p[1]); }
static void i_perspective_default_rh_no(Call*c){ glm_perspective_default_rh_no(c->f[0], VOIDP c->p[1]); }
static void i_perspective_default_rh_zo(Call*c){ glm_perspective_default_rh_zo(c->f[0], VOIDP c->p[1]); }
static void i_perspective_lh_no(Call*c){ glm_perspective_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void i_perspective_lh_zo(Call*c){ glm_perspective_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void i_perspective_rh_no(Call*c){ glm_perspective_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
static void i_perspective_rh_zo(Call*c){ glm_perspective_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], VOIDP c->p[4]); }
#endif
#if defined(W_C15) || defined(W_C16) || defined(W_ALL)
static void i_perspective_resize(Call*c){ glm_perspective_resize(c->f[0], VOIDP c->p[1]); }
#endif
#if (defined(W_C15) || defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
static void i_perspective_resize_lh_no(Call*c){ glm_perspective_resize_lh_no(c->f[0], VOIDP c->p[1]); }
static void i_perspective_resize_lh_zo(Call*c){ glm_perspective_resize_lh_zo(c->f[0], VOIDP c->p[1]); }
static void i_perspective_resize_rh_no(Call*c){ glm_perspective_resize_rh_no(c->f[0], VOIDP c->p[1]); }
static void i_perspective_resize_rh_zo(Call*c){ glm_perspective_resize_rh_zo(c->f[0], VOIDP c->p[1]); }
#endif
#if defined(W_C16) || defined(W_ALL)
static void i_persp_aspect(Call*c){ c->rf=glm_persp_aspect(VOIDP c->p[0]); }
static void i_persp_decomp(Call*c){ glm_persp_decomp(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void i_persp_decomp_far(Call*c){ glm_persp_decomp_far(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_near(Call*c){ glm_persp_decomp_near(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_x(Call*c){ glm_persp_decomp_x(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_y(Call*c){ glm_persp_decomp_y(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_z(Call*c){ glm_persp_decomp_z(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decompv(Call*c){ glm_persp_decompv(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_fovy(Call*c){ c->rf=glm_persp_fovy(VOIDP c->p[0]); }
static void i_persp_move_far(Call*c){ glm_persp_move_far(VOIDP c->p[0], c->f[1]); }
static void i_persp_sizes(Call*c){ glm_persp_sizes(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
#endif
#if (defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
static void i_persp_aspect_lh_no(Call*c){ c->rf=glm_persp_aspect_lh_no(VOIDP c->p[0]); }
static void i_persp_aspect_lh_zo(Call*c){ c->rf=glm_persp_aspect_lh_zo(VOIDP c->p[0]); }
static void i_persp_aspect_rh_no(Call*c){ c->rf=glm_persp_aspect_rh_no(VOIDP c->p[0]); }
static void i_persp_aspect_rh_zo(Call*c){ c->rf=glm_persp_aspect_rh_zo(VOIDP c->p[0]); }
static void i_persp_decomp_far_lh_no(Call*c){ glm_persp_decomp_far_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_far_lh_zo(Call*c){ glm_persp_decomp_far_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_far_rh_no(Call*c){ glm_persp_decomp_far_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_far_rh_zo(Call*c){ glm_persp_decomp_far_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_lh_no(Call*c){ glm_persp_decomp_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void i_persp_decomp_lh_zo(Call*c){ glm_persp_decomp_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void i_persp_decomp_near_lh_no(Call*c){ glm_persp_decomp_near_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_near_lh_zo(Call*c){ glm_persp_decomp_near_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_near_rh_no(Call*c){ glm_persp_decomp_near_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_near_rh_zo(Call*c){ glm_persp_decomp_near_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decomp_rh_no(Call*c){ glm_persp_decomp_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void i_persp_decomp_rh_zo(Call*c){ glm_persp_decomp_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void i_persp_decomp_x_lh_no(Call*c){ glm_persp_decomp_x_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_x_lh_zo(Call*c){ glm_persp_decomp_x_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_x_rh_no(Call*c){ glm_persp_decomp_x_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_x_rh_zo(Call*c){ glm_persp_decomp_x_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_y_lh_no(Call*c){ glm_persp_decomp_y_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_y_lh_zo(Call*c){ glm_persp_decomp_y_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_y_rh_no(Call*c){ glm_persp_decomp_y_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_y_rh_zo(Call*c){ glm_persp_decomp_y_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_z_lh_no(Call*c){ glm_persp_decomp_z_lh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_z_lh_zo(Call*c){ glm_persp_decomp_z_lh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_z_rh_no(Call*c){ glm_persp_decomp_z_rh_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decomp_z_rh_zo(Call*c){ glm_persp_decomp_z_rh_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_persp_decompv_lh_no(Call*c){ glm_persp_decompv_lh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decompv_lh_zo(Call*c){ glm_persp_decompv_lh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decompv_rh_no(Call*c){ glm_persp_decompv_rh_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_decompv_rh_zo(Call*c){ glm_persp_decompv_rh_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_persp_fovy_lh_no(Call*c){ c->rf=glm_persp_fovy_lh_no(VOIDP c->p[0]); }
static void i_persp_fovy_lh_zo(Call*c){ c->rf=glm_persp_fovy_lh_zo(VOIDP c->p[0]); }
static void i_persp_fovy_rh_no(Call*c){ c->rf=glm_persp_fovy_rh_no(VOIDP c->p[0]); }
static void i_persp_fovy_rh_zo(Call*c){ c->rf=glm_persp_fovy_rh_zo(VOIDP c->p[0]); }
static void i_persp_move_far_lh_no(Call*c){ glm_persp_move_far_lh_no(VOIDP c->p[0], c->f[1]); }
static void i_persp_move_far_lh_zo(Call*c){ glm_persp_move_far_lh_zo(VOIDP c->p[0], c->f[1]); }
static void i_persp_move_far_rh_no(Call*c){ glm_persp_move_far_rh_no(VOIDP c->p[0], c->f[1]); }
static void i_persp_move_far_rh_zo(Call*c){ glm_persp_move_far_rh_zo(VOIDP c->p[0], c->f[1]); }
static void i_persp_sizes_lh_no(Call*c){ glm_persp_sizes_lh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_persp_sizes_lh_zo(Call*c){ glm_persp_sizes_lh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_persp_sizes_rh_no(Call*c){ glm_persp_sizes_rh_no(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
static void i_persp_sizes_rh_zo(Call*c){ glm_persp_sizes_rh_zo(VOIDP c->p[0], c->f[1], VOIDP c->p[2]); }
#endif
#if defined(W_C17) || defined(W_ALL)
static void i_pickmatrix(Call*c){ glm_pickmatrix(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_project(Call*c){ glm_project(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_project_z(Call*c){ c->rf=glm_project_z(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_unproject(Call*c){ glm_unproject(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_unprojecti(Call*c){ glm_unprojecti(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
#endif
#if (defined(W_C17) || defined(W_ALL)) && !defined(PLAIN)
static void i_project_no(Call*c){ glm_project_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_project_z_no(Call*c){ c->rf=glm_project_z_no(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_project_z_zo(Call*c){ c->rf=glm_project_z_zo(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_project_zo(Call*c){ glm_project_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_unprojecti_no(Call*c){ glm_unprojecti_no(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_unprojecti_zo(Call*c){ glm_unprojecti_zo(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
#endif
#if defined(W_C18) || defined(W_ALL)
static void i_aabb_frustum(Call*c){ c->ri=(int)glm_aabb_frustum(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_frustum_box(Call*c){ glm_frustum_box(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_frustum_center(Call*c){ glm_frustum_center(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_frustum_corners(Call*c){ glm_frustum_corners(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_frustum_corners_at(Call*c){ glm_frustum_corners_at(VOIDP c->p[0], c->f[1], c->f[2], VOIDP c->p[3]); }
static void i_frustum_planes(Call*c){ glm_frustum_planes(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_plane_normalize(Call*c){ glm_plane_normalize(VOIDP c->p[0]); }
static void i_const_cscoord_lbn(Call*c){ vec4 x=GLM_CSCOORD_LBN; memcpy(c->p[0],&x,sizeof x); }
static void i_const_cscoord_ltn(Call*c){ vec4 x=GLM_CSCOORD_LTN; memcpy(c->p[0],&x,sizeof x); }
static void i_const_cscoord_rtn(Call*c){ vec4 x=GLM_CSCOORD_RTN; memcpy(c->p[0],&x,sizeof x); }
static void i_const_cscoord_rbn(Call*c){ vec4 x=GLM_CSCOORD_RBN; memcpy(c->p[0],&x,sizeof x); }
static void i_const_cscoord_lbf(Call*c){ vec4 x=GLM_CSCOORD_LBF; memcpy(c->p[0],&x,sizeof x); }
static void i_const_cscoord_ltf(Call*c){ vec4 x=GLM_CSCOORD_LTF; memcpy(c->p[0],&x,sizeof x); }
static void i_const_cscoord_rtf(Call*c){ vec4 x=GLM_CSCOORD_RTF; memcpy(c->p[0],&x,sizeof x); }
static void i_const_cscoord_rbf(Call*c){ vec4 x=GLM_CSCOORD_RBF; memcpy(c->p[0],&x,sizeof x); }
static void i_const_lbn(Call*c){ c->ri=(int)(GLM_LBN); }
static void i_const_ltn(Call*c){ c->ri=(int)(GLM_LTN); }
static void i_const_rtn(Call*c){ c->ri=(int)(GLM_RTN); }
static void i_const_rbn(Call*c){ c->ri=(int)(GLM_RBN); }
static void i_const_lbf(Call*c){ c->ri=(int)(GLM_LBF); }
static void i_const_ltf(Call*c){ c->ri=(int)(GLM_LTF); }
static void i_const_rtf(Call*c){ c->ri=(int)(GLM_RTF); }
static void i_const_rbf(Call*c){ c->ri=(int)(GLM_RBF); }
static void i_const_left(Call*c){ c->ri=(int)(GLM_LEFT); }
static void i_const_right(Call*c){ c->ri=(int)(GLM_RIGHT); }
static void i_const_bottom(Call*c){ c->ri=(int)(GLM_BOTTOM); }
static void i_const_top(Call*c){ c->ri=(int)(GLM_TOP); }
static void i_const_near(Call*c){ c->ri=(int)(GLM_NEAR); }
static void i_const_far(Call*c){ c->ri=(int)(GLM_FAR); }
#endif
#if defined(W_C19) || defined(W_ALL)
static void i_aabb2d_aabb(Call*c){ c->ri=(int)glm_aabb2d_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb2d_center(Call*c){ glm_aabb2d_center(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb2d_circle(Call*c){ c->ri=(int)glm_aabb2d_circle(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb2d_contains(Call*c){ c->ri=(int)glm_aabb2d_contains(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb2d_copy(Call*c){ glm_aabb2d_copy(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb2d_crop(Call*c){ glm_aabb2d_crop(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_aabb2d_crop_until(Call*c){ glm_aabb2d_crop_until(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_aabb2d_diag(Call*c){ c->rf=glm_aabb2d_diag(VOIDP c->p[0]); }
static void i_aabb2d_invalidate(Call*c){ glm_aabb2d_invalidate(VOIDP c->p[0]); }
static void i_aabb2d_isvalid(Call*c){ c->ri=(int)glm_aabb2d_isvalid(VOIDP c->p[0]); }
static void i_aabb2d_merge(Call*c){ glm_aabb2d_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_aabb2d_point(Call*c){ c->ri=(int)glm_aabb2d_point(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb2d_radius(Call*c){ c->rf=glm_aabb2d_radius(VOIDP c->p[0]); }
static void i_aabb2d_size(Call*c){ c->rf=glm_aabb2d_size(VOIDP c->p[0]); }
static void i_aabb2d_sizev(Call*c){ glm_aabb2d_sizev(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb2d_transform(Call*c){ glm_aabb2d_transform(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_aabb2d_zero(Call*c){ glm_aabb2d_zero(VOIDP c->p[0]); }
static void i_aabb_aabb(Call*c){ c->ri=(int)glm_aabb_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb_center(Call*c){ glm_aabb_center(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb_contains(Call*c){ c->ri=(int)glm_aabb_contains(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb_crop(Call*c){ glm_aabb_crop(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_aabb_crop_until(Call*c){ glm_aabb_crop_until(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void i_aabb_invalidate(Call*c){ glm_aabb_invalidate(VOIDP c->p[0]); }
static void i_aabb_isvalid(Call*c){ c->ri=(int)glm_aabb_isvalid(VOIDP c->p[0]); }
static void i_aabb_merge(Call*c){ glm_aabb_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_aabb_point(Call*c){ c->ri=(int)glm_aabb_point(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb_radius(Call*c){ c->rf=glm_aabb_radius(VOIDP c->p[0]); }
static void i_aabb_size(Call*c){ c->rf=glm_aabb_size(VOIDP c->p[0]); }
static void i_aabb_sphere(Call*c){ c->ri=(int)glm_aabb_sphere(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_aabb_transform(Call*c){ glm_aabb_transform(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C20) || defined(W_ALL)
static void i_ray_at(Call*c){ glm_ray_at(VOIDP c->p[0], VOIDP c->p[1], c->f[2], VOIDP c->p[3]); }
static void i_ray_sphere(Call*c){ c->ri=(int)glm_ray_sphere(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4]); }
static void i_ray_triangle(Call*c){ c->ri=(int)glm_ray_triangle(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5]); }
static void i_sphere_merge(Call*c){ glm_sphere_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_sphere_point(Call*c){ c->ri=(int)glm_sphere_point(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_sphere_radii(Call*c){ c->rf=glm_sphere_radii(VOIDP c->p[0]); }
static void i_sphere_sphere(Call*c){ c->ri=(int)glm_sphere_sphere(VOIDP c->p[0], VOIDP c->p[1]); }
static void i_sphere_transform(Call*c){ glm_sphere_transform(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
#endif
#if defined(W_C21) || defined(W_ALL)
static void i_bezier(Call*c){ c->rf=glm_bezier(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void i_decasteljau(Call*c){ c->rf=glm_decasteljau(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void i_ease_back_in(Call*c){ c->rf=glm_ease_back_in(c->f[0]); }
static void i_ease_back_inout(Call*c){ c->rf=glm_ease_back_inout(c->f[0]); }
static void i_ease_back_out(Call*c){ c->rf=glm_ease_back_out(c->f[0]); }
static void i_ease_bounce_in(Call*c){ c->rf=glm_ease_bounce_in(c->f[0]); }
static void i_ease_bounce_inout(Call*c){ c->rf=glm_ease_bounce_inout(c->f[0]); }
static void i_ease_bounce_out(Call*c){ c->rf=glm_ease_bounce_out(c->f[0]); }
static void i_ease_circ_in(Call*c){ c->rf=glm_ease_circ_in(c->f[0]); }
static void i_ease_circ_inout(Call*c){ c->rf=glm_ease_circ_inout(c->f[0]); }
static void i_ease_circ_out(Call*c){ c->rf=glm_ease_circ_out(c->f[0]); }
static void i_ease_cubic_in(Call*c){ c->rf=glm_ease_cubic_in(c->f[0]); }
static void i_ease_cubic_inout(Call*c){ c->rf=glm_ease_cubic_inout(c->f[0]); }
static void i_ease_cubic_out(Call*c){ c->rf=glm_ease_cubic_out(c->f[0]); }
static void i_ease_elast_in(Call*c){ c->rf=glm_ease_elast_in(c->f[0]); }
static void i_ease_elast_inout(Call*c){ c->rf=glm_ease_elast_inout(c->f[0]); }
static void i_ease_elast_out(Call*c){ c->rf=glm_ease_elast_out(c->f[0]); }
static void i_ease_exp_in(Call*c){ c->rf=glm_ease_exp_in(c->f[0]); }
static void i_ease_exp_inout(Call*c){ c->rf=glm_ease_exp_inout(c->f[0]); }
static void i_ease_exp_out(Call*c){ c->rf=glm_ease_exp_out(c->f[0]); }
static void i_ease_linear(Call*c){ c->rf=glm_ease_linear(c->f[0]); }
static void i_ease_quad_in(Call*c){ c->rf=glm_ease_quad_in(c->f[0]); }
static void i_ease_quad_inout(Call*c){ c->rf=glm_ease_quad_inout(c->f[0]); }
static void i_ease_quad_out(Call*c){ c->rf=glm_ease_quad_out(c->f[0]); }
static void i_ease_quart_in(Call*c){ c->rf=glm_ease_quart_in(c->f[0]); }
static void i_ease_quart_inout(Call*c){ c->rf=glm_ease_quart_inout(c->f[0]); }
static void i_ease_quart_out(Call*c){ c->rf=glm_ease_quart_out(c->f[0]); }
static void i_ease_quint_in(Call*c){ c->rf=glm_ease_quint_in(c->f[0]); }
static void i_ease_quint_inout(Call*c){ c->rf=glm_ease_quint_inout(c->f[0]); }
static void i_ease_quint_out(Call*c){ c->rf=glm_ease_quint_out(c->f[0]); }
static void i_ease_sine_in(Call*c){ c->rf=glm_ease_sine_in(c->f[0]); }
static void i_ease_sine_inout(Call*c){ c->rf=glm_ease_sine_inout(c->f[0]); }
static void i_ease_sine_out(Call*c){ c->rf=glm_ease_sine_out(c->f[0]); }
static void i_hermite(Call*c){ c->rf=glm_hermite(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); }
static void i_smc(Call*c){ c->rf=glm_smc(c->f[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void i_const_bezier_mat_init(Call*c){ mat4 x=GLM_BEZIER_MAT_INIT; memcpy(c->p[0],&x,sizeof x); }
static void i_const_hermite_mat_init(Call*c){ mat4 x=GLM_HERMITE_MAT_INIT; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C22) || defined(W_ALL)
static void i_perlin_vec2(Call*c){ c->rf=glm_perlin_vec2(VOIDP c->p[0]); }
static void i_perlin_vec3(Call*c){ c->rf=glm_perlin_vec3(VOIDP c->p[0]); }
static void i_perlin_vec4(Call*c){ c->rf=glm_perlin_vec4(VOIDP c->p[0]); }
#endif
#if (defined(W_C01) || defined(W_ALL)) && !defined(__cplusplus)
static void i_const_vec2_one(Call*c){ vec2 x; memcpy(&x,GLM_VEC2_ONE,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec2_zero(Call*c){ vec2 x; memcpy(&x,GLM_VEC2_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec3_one(Call*c){ vec3 x; memcpy(&x,GLM_VEC3_ONE,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec3_zero(Call*c){ vec3 x; memcpy(&x,GLM_VEC3_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec4_one(Call*c){ vec4 x; memcpy(&x,GLM_VEC4_ONE,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec4_zero(Call*c){ vec4 x; memcpy(&x,GLM_VEC4_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_vec4_black(Call*c){ vec4 x; memcpy(&x,GLM_VEC4_BLACK,sizeof x); memcpy(c->p[0],&x,sizeof x); }
#endif
#if (defined(W_C02) || defined(W_ALL)) && !defined(__cplusplus)
static void i_const_ivec2_one(Call*c){ ivec2 x; memcpy(&x,GLM_IVEC2_ONE,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec2_zero(Call*c){ ivec2 x; memcpy(&x,GLM_IVEC2_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec3_one(Call*c){ ivec3 x; memcpy(&x,GLM_IVEC3_ONE,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec3_zero(Call*c){ ivec3 x; memcpy(&x,GLM_IVEC3_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec4_one(Call*c){ ivec4 x; memcpy(&x,GLM_IVEC4_ONE,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_ivec4_zero(Call*c){ ivec4 x; memcpy(&x,GLM_IVEC4_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
#endif
#if (defined(W_C06) || defined(W_ALL)) && !defined(__cplusplus)
static void i_const_mat2_zero(Call*c){ mat2 x; memcpy(&x,GLM_MAT2_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat2_identity(Call*c){ mat2 x; memcpy(&x,GLM_MAT2_IDENTITY,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3_zero(Call*c){ mat3 x; memcpy(&x,GLM_MAT3_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat3_identity(Call*c){ mat3 x; memcpy(&x,GLM_MAT3_IDENTITY,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4_zero(Call*c){ mat4 x; memcpy(&x,GLM_MAT4_ZERO,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_mat4_identity(Call*c){ mat4 x; memcpy(&x,GLM_MAT4_IDENTITY,sizeof x); memcpy(c->p[0],&x,sizeof x); }
#endif
#if (defined(W_C10) || defined(W_ALL)) && !defined(__cplusplus)
static void i_const_quat_identity(Call*c){ versor x; memcpy(&x,GLM_QUAT_IDENTITY,sizeof x); memcpy(c->p[0],&x,sizeof x); }
#endif
#if (defined(W_C14) || defined(W_ALL)) && !defined(__cplusplus)
static void i_const_xup(Call*c){ vec3 x; memcpy(&x,GLM_XUP,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_yup(Call*c){ vec3 x; memcpy(&x,GLM_YUP,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_zup(Call*c){ vec3 x; memcpy(&x,GLM_ZUP,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_forward(Call*c){ vec3 x; memcpy(&x,GLM_FORWARD,sizeof x); memcpy(c->p[0],&x,sizeof x); }
#endif
#if (defined(W_C21) || defined(W_ALL)) && !defined(__cplusplus)
static void i_const_bezier_mat(Call*c){ mat4 x; memcpy(&x,GLM_BEZIER_MAT,sizeof x); memcpy(c->p[0],&x,sizeof x); }
static void i_const_hermite_mat(Call*c){ mat4 x; memcpy(&x,GLM_HERMITE_MAT,sizeof x); memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C28) || defined(W_ALL)
static void i_layout_vec2(Call*c){ int*d=c->p[0]; vec2 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(vec2); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0]) O([1]) O([0]) O([1]) O([0]) O([1]) O([0]) O([1]) O([0]) O([1])
#undef O
}
static void i_layout_vec2s(Call*c){ int*d=c->p[0]; vec2s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(vec2s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0]) O(.raw[1]) O(.x) O(.y) O(.r) O(.i) O(.u) O(.v) O(.s) O(.t)
#else
O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1])
#endif
#undef O
}
static void i_layout_vec3(Call*c){ int*d=c->p[0]; vec3 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(vec3); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0]) O([1]) O([2]) O([0]) O([1]) O([2]) O([0]) O([1]) O([2])
#undef O
}
static void i_layout_vec3s(Call*c){ int*d=c->p[0]; vec3s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(vec3s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.x) O(.y) O(.z) O(.r) O(.g) O(.b)
#else
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[0]) O(.raw[1]) O(.raw[2])
#endif
#undef O
}
static void i_layout_vec4(Call*c){ int*d=c->p[0]; vec4 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(vec4); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0]) O([1]) O([2]) O([3]) O([0]) O([1]) O([2]) O([3]) O([0]) O([1]) O([2]) O([3])
#undef O
}
static void i_layout_vec4s(Call*c){ int*d=c->p[0]; vec4s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(vec4s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.x) O(.y) O(.z) O(.w) O(.r) O(.g) O(.b) O(.a)
#else
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3])
#endif
#undef O
}
static void i_layout_ivec2(Call*c){ int*d=c->p[0]; ivec2 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(ivec2); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0]) O([1]) O([0]) O([1]) O([0]) O([1]) O([0]) O([1]) O([0]) O([1])
#undef O
}
static void i_layout_ivec2s(Call*c){ int*d=c->p[0]; ivec2s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(ivec2s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0]) O(.raw[1]) O(.x) O(.y) O(.r) O(.i) O(.u) O(.v) O(.s) O(.t)
#else
O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1]) O(.raw[0]) O(.raw[1])
#endif
#undef O
}
static void i_layout_ivec3(Call*c){ int*d=c->p[0]; ivec3 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(ivec3); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0]) O([1]) O([2]) O([0]) O([1]) O([2]) O([0]) O([1]) O([2])
#undef O
}
static void i_layout_ivec3s(Call*c){ int*d=c->p[0]; ivec3s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(ivec3s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.x) O(.y) O(.z) O(.r) O(.g) O(.b)
#else
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[0]) O(.raw[1]) O(.raw[2])
#endif
#undef O
}
static void i_layout_ivec4(Call*c){ int*d=c->p[0]; ivec4 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(ivec4); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0]) O([1]) O([2]) O([3]) O([0]) O([1]) O([2]) O([3]) O([0]) O([1]) O([2]) O([3])
#undef O
}
static void i_layout_ivec4s(Call*c){ int*d=c->p[0]; ivec4s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(ivec4s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.x) O(.y) O(.z) O(.w) O(.r) O(.g) O(.b) O(.a)
#else
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3])
#endif
#undef O
}
static void i_layout_versor(Call*c){ int*d=c->p[0]; versor x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(versor); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0]) O([1]) O([2]) O([3]) O([0]) O([1]) O([2]) O([3]) O([0]) O([1]) O([2]) O([3])
#undef O
}
static void i_layout_versors(Call*c){ int*d=c->p[0]; versors x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(versors); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.x) O(.y) O(.z) O(.w) O(.imag.x) O(.imag.y) O(.imag.z) O(.real)
#else
O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3]) O(.raw[0]) O(.raw[1]) O(.raw[2]) O(.raw[3])
#endif
#undef O
}
static void i_layout_mat2(Call*c){ int*d=c->p[0]; mat2 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat2); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([0][0]) O([0][1]) O([1][0]) O([1][1])
#undef O
}
static void i_layout_mat2s(Call*c){ int*d=c->p[0]; mat2s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat2s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.m00) O(.m01) O(.m10) O(.m11) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[1].raw[0]) O(.col[1].raw[1])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1])
#endif
#undef O
}
static void i_layout_mat3(Call*c){ int*d=c->p[0]; mat3 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat3); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([2][0]) O([2][1]) O([2][2]) O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([2][0]) O([2][1]) O([2][2]) O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([2][0]) O([2][1]) O([2][2])
#undef O
}
static void i_layout_mat3s(Call*c){ int*d=c->p[0]; mat3s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat3s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.m00) O(.m01) O(.m02) O(.m10) O(.m11) O(.m12) O(.m20) O(.m21) O(.m22) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2])
#endif
#undef O
}
static void i_layout_mat4(Call*c){ int*d=c->p[0]; mat4 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat4); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([2][0]) O([2][1]) O([2][2]) O([2][3]) O([3][0]) O([3][1]) O([3][2]) O([3][3]) O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([2][0]) O([2][1]) O([2][2]) O([2][3]) O([3][0]) O([3][1]) O([3][2]) O([3][3]) O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([2][0]) O([2][1]) O([2][2]) O([2][3]) O([3][0]) O([3][1]) O([3][2]) O([3][3])
#undef O
}
static void i_layout_mat4s(Call*c){ int*d=c->p[0]; mat4s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat4s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[2][3]) O(.raw[3][0]) O(.raw[3][1]) O(.raw[3][2]) O(.raw[3][3]) O(.m00) O(.m01) O(.m02) O(.m03) O(.m10) O(.m11) O(.m12) O(.m13) O(.m20) O(.m21) O(.m22) O(.m23) O(.m30) O(.m31) O(.m32) O(.m33) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[0].raw[3]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[1].raw[3]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2]) O(.col[2].raw[3]) O(.col[3].raw[0]) O(.col[3].raw[1]) O(.col[3].raw[2]) O(.col[3].raw[3])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[2][3]) O(.raw[3][0]) O(.raw[3][1]) O(.raw[3][2]) O(.raw[3][3]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[0].raw[3]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[1].raw[3]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2]) O(.col[2].raw[3]) O(.col[3].raw[0]) O(.col[3].raw[1]) O(.col[3].raw[2]) O(.col[3].raw[3]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[2][3]) O(.raw[3][0]) O(.raw[3][1]) O(.raw[3][2]) O(.raw[3][3])
#endif
#undef O
}
static void i_layout_mat2x3(Call*c){ int*d=c->p[0]; mat2x3 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat2x3); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2])
#undef O
}
static void i_layout_mat2x3s(Call*c){ int*d=c->p[0]; mat2x3s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat2x3s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.m00) O(.m01) O(.m02) O(.m10) O(.m11) O(.m12) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2])
#endif
#undef O
}
static void i_layout_mat2x4(Call*c){ int*d=c->p[0]; mat2x4 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat2x4); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3])
#undef O
}
static void i_layout_mat2x4s(Call*c){ int*d=c->p[0]; mat2x4s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat2x4s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.m00) O(.m01) O(.m02) O(.m03) O(.m10) O(.m11) O(.m12) O(.m13) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[0].raw[3]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[1].raw[3])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[0].raw[3]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[1].raw[3]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3])
#endif
#undef O
}
static void i_layout_mat3x2(Call*c){ int*d=c->p[0]; mat3x2 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat3x2); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([2][0]) O([2][1]) O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([2][0]) O([2][1]) O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([2][0]) O([2][1])
#undef O
}
static void i_layout_mat3x2s(Call*c){ int*d=c->p[0]; mat3x2s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat3x2s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[2][0]) O(.raw[2][1]) O(.m00) O(.m01) O(.m10) O(.m11) O(.m20) O(.m21) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[2].raw[0]) O(.col[2].raw[1])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[2][0]) O(.raw[2][1]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[2][0]) O(.raw[2][1])
#endif
#undef O
}
static void i_layout_mat3x4(Call*c){ int*d=c->p[0]; mat3x4 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat3x4); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([2][0]) O([2][1]) O([2][2]) O([2][3]) O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([2][0]) O([2][1]) O([2][2]) O([2][3]) O([0][0]) O([0][1]) O([0][2]) O([0][3]) O([1][0]) O([1][1]) O([1][2]) O([1][3]) O([2][0]) O([2][1]) O([2][2]) O([2][3])
#undef O
}
static void i_layout_mat3x4s(Call*c){ int*d=c->p[0]; mat3x4s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat3x4s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[2][3]) O(.m00) O(.m01) O(.m02) O(.m03) O(.m10) O(.m11) O(.m12) O(.m13) O(.m20) O(.m21) O(.m22) O(.m23) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[0].raw[3]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[1].raw[3]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2]) O(.col[2].raw[3])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[2][3]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[0].raw[3]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[1].raw[3]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2]) O(.col[2].raw[3]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[0][3]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[1][3]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[2][3])
#endif
#undef O
}
static void i_layout_mat4x2(Call*c){ int*d=c->p[0]; mat4x2 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat4x2); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([2][0]) O([2][1]) O([3][0]) O([3][1]) O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([2][0]) O([2][1]) O([3][0]) O([3][1]) O([0][0]) O([0][1]) O([1][0]) O([1][1]) O([2][0]) O([2][1]) O([3][0]) O([3][1])
#undef O
}
static void i_layout_mat4x2s(Call*c){ int*d=c->p[0]; mat4x2s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat4x2s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[3][0]) O(.raw[3][1]) O(.m00) O(.m01) O(.m10) O(.m11) O(.m20) O(.m21) O(.m30) O(.m31) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[3].raw[0]) O(.col[3].raw[1])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[3][0]) O(.raw[3][1]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[3].raw[0]) O(.col[3].raw[1]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[3][0]) O(.raw[3][1])
#endif
#undef O
}
static void i_layout_mat4x3(Call*c){ int*d=c->p[0]; mat4x3 x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat4x3); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([2][0]) O([2][1]) O([2][2]) O([3][0]) O([3][1]) O([3][2]) O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([2][0]) O([2][1]) O([2][2]) O([3][0]) O([3][1]) O([3][2]) O([0][0]) O([0][1]) O([0][2]) O([1][0]) O([1][1]) O([1][2]) O([2][0]) O([2][1]) O([2][2]) O([3][0]) O([3][1]) O([3][2])
#undef O
}
static void i_layout_mat4x3s(Call*c){ int*d=c->p[0]; mat4x3s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(mat4x3s); d[2]=VUNAL; d[3]=VAVX; d+=4;
#define O(q) *d++=(int)((char*)&x q-(char*)&x);
#if CGLM_USE_ANONYMOUS_STRUCT
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[3][0]) O(.raw[3][1]) O(.raw[3][2]) O(.m00) O(.m01) O(.m02) O(.m10) O(.m11) O(.m12) O(.m20) O(.m21) O(.m22) O(.m30) O(.m31) O(.m32) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2]) O(.col[3].raw[0]) O(.col[3].raw[1]) O(.col[3].raw[2])
#else
O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[3][0]) O(.raw[3][1]) O(.raw[3][2]) O(.col[0].raw[0]) O(.col[0].raw[1]) O(.col[0].raw[2]) O(.col[1].raw[0]) O(.col[1].raw[1]) O(.col[1].raw[2]) O(.col[2].raw[0]) O(.col[2].raw[1]) O(.col[2].raw[2]) O(.col[3].raw[0]) O(.col[3].raw[1]) O(.col[3].raw[2]) O(.raw[0][0]) O(.raw[0][1]) O(.raw[0][2]) O(.raw[1][0]) O(.raw[1][1]) O(.raw[1][2]) O(.raw[2][0]) O(.raw[2][1]) O(.raw[2][2]) O(.raw[3][0]) O(.raw[3][1]) O(.raw[3][2])
#endif
#undef O
}
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__))
static void i_simd_abs(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_abs(a)); }
static void i_simd_vhadd(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_vhadd(a)); }
static void i_simd_min(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_min(a,b)); }
static void i_simd_max(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_max(a,b)); }
static void i_simd_vdot(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_vdot(a,b)); }
static void i_simd_div(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_div(a,b)); }
static void i_simd_hadd(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);c->rf=glmm_hadd(a); }
static void i_simd_hmin(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);c->rf=glmm_hmin(a); }
static void i_simd_hmax(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);c->rf=glmm_hmax(a); }
static void i_simd_norm(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);c->rf=glmm_norm(a); }
static void i_simd_norm2(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);c->rf=glmm_norm2(a); }
static void i_simd_norm_one(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);c->rf=glmm_norm_one(a); }
static void i_simd_norm_inf(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);c->rf=glmm_norm_inf(a); }
static void i_simd_dot(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);c->rf=glmm_dot(a,b); }
static void i_simd_fmadd(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_128 d=glmm_load((float*)c->p[2]);glmm_store((float*)c->p[3],glmm_fmadd(a,b,d)); }
static void i_simd_fnmadd(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_128 d=glmm_load((float*)c->p[2]);glmm_store((float*)c->p[3],glmm_fnmadd(a,b,d)); }
static void i_simd_fmsub(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_128 d=glmm_load((float*)c->p[2]);glmm_store((float*)c->p[3],glmm_fmsub(a,b,d)); }
static void i_simd_fnmsub(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_128 d=glmm_load((float*)c->p[2]);glmm_store((float*)c->p[3],glmm_fnmsub(a,b,d)); }
static void i_simd_splat_x(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_splat_x(a)); }
static void i_simd_splat_y(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_splat_y(a)); }
static void i_simd_splat_z(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_splat_z(a)); }
static void i_simd_splat_w(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_splat_w(a)); }
static void i_simd_set1(Call*c){ float x=*(float*)c->p[0];glmm_store((float*)c->p[1],glmm_set1(x)); }
static void i_simd_set1_ptr(Call*c){ float*x=(float*)c->p[0]+1;glmm_store((float*)c->p[1],glmm_set1_ptr(x)); }
static void i_simd_set1_rval(Call*c){ float*x=c->p[0];glmm_store((float*)c->p[1],glmm_set1_rval(x[2])); }
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && !defined(CGLM_SIMD_ARM)
static void i_simd_vhadds(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);float t[4] __attribute__((aligned(16))); glmm_store(t,glmm_vhadds(a)); c->rf=t[0]; }
static void i_simd_vhmin(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);float t[4] __attribute__((aligned(16))); glmm_store(t,glmm_vhmin(a)); c->rf=t[0]; }
static void i_simd_vhmax(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);float t[4] __attribute__((aligned(16))); glmm_store(t,glmm_vhmax(a)); c->rf=t[0]; }
static void i_simd_vdots(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);float t[4] __attribute__((aligned(16))); glmm_store(t,glmm_vdots(a,b)); c->rf=t[0]; }
static void i_simd_shuff_0123(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_shuff1(a,0,1,2,3)); }
static void i_simd_shuff_3210(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_shuff1(a,3,2,1,0)); }
static void i_simd_shuff_2031(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_shuff1(a,2,0,3,1)); }
static void i_simd_shuff_1133(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_shuff1(a,1,1,3,3)); }
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && defined(__AVX__)
static void i_simd_256_fmadd(Call*c){ __m256 a=glmm_load256((float*)c->p[0]),b=glmm_load256((float*)c->p[1]),d=glmm_load256((float*)c->p[2]); glmm_store256((float*)c->p[3],glmm256_fmadd(a,b,d)); }
static void i_simd_256_fnmadd(Call*c){ __m256 a=glmm_load256((float*)c->p[0]),b=glmm_load256((float*)c->p[1]),d=glmm_load256((float*)c->p[2]); glmm_store256((float*)c->p[3],glmm256_fnmadd(a,b,d)); }
static void i_simd_256_fmsub(Call*c){ __m256 a=glmm_load256((float*)c->p[0]),b=glmm_load256((float*)c->p[1]),d=glmm_load256((float*)c->p[2]); glmm_store256((float*)c->p[3],glmm256_fmsub(a,b,d)); }
static void i_simd_256_fnmsub(Call*c){ __m256 a=glmm_load256((float*)c->p[0]),b=glmm_load256((float*)c->p[1]),d=glmm_load256((float*)c->p[2]); glmm_store256((float*)c->p[3],glmm256_fnmsub(a,b,d)); }
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && !defined(CGLM_SIMD_ARM) && (defined(__SSE2__)||defined(CGLM_SIMD_WASM))
static void i_simd_load3(Call*c){ glmm_store((float*)c->p[1],glmm_load3(c->p[0])); }
static void i_simd_store3(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store3(c->p[1],a); }
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && defined(CGLM_SIMD_ARM)
static void i_simd_combine_ll(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_combine_ll(a,b)); }
static void i_simd_combine_hl(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_combine_hl(a,b)); }
static void i_simd_combine_hh(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_combine_hh(a,b)); }
static void i_simd_swplane(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_store((float*)c->p[1],glmm_swplane(a)); }
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && defined(CGLM_SIMD_ARM) && !defined(PLAIN)
static void i_simd_combine_lh(Call*c){ glmm_128 a=glmm_load((float*)c->p[0]);glmm_128 b=glmm_load((float*)c->p[1]);glmm_store((float*)c->p[2],glmm_combine_lh(a,b)); }
#endif
static const WEntry table_i[]={
#if defined(W_C01) || defined(W_ALL)
{"cross",i_cross},
{"dot",i_dot},
{"vec2",i_vec2},
{"vec2_add",i_vec2_add},
{"vec2_addadd",i_vec2_addadd},
{"vec2_adds",i_vec2_adds},
{"vec2_addsub",i_vec2_addsub},
{"vec2_clamp",i_vec2_clamp},
{"vec2_complex_conjugate",i_vec2_complex_conjugate},
{"vec2_complex_div",i_vec2_complex_div},
{"vec2_complex_mul",i_vec2_complex_mul},
{"vec2_copy",i_vec2_copy},
{"vec2_cross",i_vec2_cross},
{"vec2_distance",i_vec2_distance},
{"vec2_distance2",i_vec2_distance2},
{"vec2_div",i_vec2_div},
{"vec2_divs",i_vec2_divs},
{"vec2_dot",i_vec2_dot},
{"vec2_fill",i_vec2_fill},
{"vec2_make",i_vec2_make},
{"vec2_maxadd",i_vec2_maxadd},
{"vec2_maxsub",i_vec2_maxsub},
{"vec2_maxv",i_vec2_maxv},
{"vec2_minadd",i_vec2_minadd},
{"vec2_minsub",i_vec2_minsub},
{"vec2_minv",i_vec2_minv},
{"vec2_mul",i_vec2_mul},
{"vec2_muladd",i_vec2_muladd},
{"vec2_muladds",i_vec2_muladds},
{"vec2_mulsub",i_vec2_mulsub},
{"vec2_mulsubs",i_vec2_mulsubs},
{"vec2_negate",i_vec2_negate},
{"vec2_negate_to",i_vec2_negate_to},
{"vec2_norm",i_vec2_norm},
{"vec2_norm2",i_vec2_norm2},
{"vec2_one",i_vec2_one},
{"vec2_scale",i_vec2_scale},
{"vec2_sub",i_vec2_sub},
{"vec2_subadd",i_vec2_subadd},
{"vec2_subs",i_vec2_subs},
{"vec2_subsub",i_vec2_subsub},
{"vec2_zero",i_vec2_zero},
{"vec3",i_vec3},
{"vec3_add",i_vec3_add},
{"vec3_addadd",i_vec3_addadd},
{"vec3_adds",i_vec3_adds},
{"vec3_addsub",i_vec3_addsub},
{"vec3_broadcast",i_vec3_broadcast},
{"vec3_clamp",i_vec3_clamp},
{"vec3_copy",i_vec3_copy},
{"vec3_cross",i_vec3_cross},
{"vec3_distance",i_vec3_distance},
{"vec3_distance2",i_vec3_distance2},
{"vec3_div",i_vec3_div},
{"vec3_divs",i_vec3_divs},
{"vec3_dot",i_vec3_dot},
{"vec3_dup",i_vec3_dup},
{"vec3_fill",i_vec3_fill},
{"vec3_flipsign",i_vec3_flipsign},
{"vec3_flipsign_to",i_vec3_flipsign_to},
{"vec3_hadd",i_vec3_hadd},
{"vec3_inv",i_vec3_inv},
{"vec3_inv_to",i_vec3_inv_to},
{"vec3_make",i_vec3_make},
{"vec3_maxadd",i_vec3_maxadd},
{"vec3_maxsub",i_vec3_maxsub},
{"vec3_maxv",i_vec3_maxv},
{"vec3_minadd",i_vec3_minadd},
{"vec3_minsub",i_vec3_minsub},
{"vec3_minv",i_vec3_minv},
{"vec3_mul",i_vec3_mul},
{"vec3_muladd",i_vec3_muladd},
{"vec3_muladds",i_vec3_muladds},
{"vec3_mulsub",i_vec3_mulsub},
{"vec3_mulsubs",i_vec3_mulsubs},
{"vec3_mulv",i_vec3_mulv},
{"vec3_negate",i_vec3_negate},
{"vec3_negate_to",i_vec3_negate_to},
{"vec3_norm",i_vec3_norm},
{"vec3_norm2",i_vec3_norm2},
{"vec3_norm_inf",i_vec3_norm_inf},
{"vec3_norm_one",i_vec3_norm_one},
{"vec3_one",i_vec3_one},
{"vec3_scale",i_vec3_scale},
{"vec3_sub",i_vec3_sub},
{"vec3_subadd",i_vec3_subadd},
{"vec3_subs",i_vec3_subs},
{"vec3_subsub",i_vec3_subsub},
{"vec3_zero",i_vec3_zero},
{"vec4",i_vec4},
{"vec4_add",i_vec4_add},
{"vec4_addadd",i_vec4_addadd},
{"vec4_adds",i_vec4_adds},
{"vec4_addsub",i_vec4_addsub},
{"vec4_broadcast",i_vec4_broadcast},
{"vec4_clamp",i_vec4_clamp},
{"vec4_copy",i_vec4_copy},
{"vec4_copy3",i_vec4_copy3},
{"vec4_cubic",i_vec4_cubic},
{"vec4_distance",i_vec4_distance},
{"vec4_distance2",i_vec4_distance2},
{"vec4_div",i_vec4_div},
{"vec4_divs",i_vec4_divs},
{"vec4_dot",i_vec4_dot},
{"vec4_dup",i_vec4_dup},
{"vec4_dup3",i_vec4_dup3},
{"vec4_fill",i_vec4_fill},
{"vec4_flipsign",i_vec4_flipsign},
{"vec4_flipsign_to",i_vec4_flipsign_to},
{"vec4_hadd",i_vec4_hadd},
{"vec4_inv",i_vec4_inv},
{"vec4_inv_to",i_vec4_inv_to},
{"vec4_make",i_vec4_make},
{"vec4_maxadd",i_vec4_maxadd},
{"vec4_maxsub",i_vec4_maxsub},
{"vec4_maxv",i_vec4_maxv},
{"vec4_minadd",i_vec4_minadd},
{"vec4_minsub",i_vec4_minsub},
{"vec4_minv",i_vec4_minv},
{"vec4_mul",i_vec4_mul},
{"vec4_muladd",i_vec4_muladd},
{"vec4_muladds",i_vec4_muladds},
{"vec4_mulsub",i_vec4_mulsub},
{"vec4_mulsubs",i_vec4_mulsubs},
{"vec4_mulv",i_vec4_mulv},
{"vec4_negate",i_vec4_negate},
{"vec4_negate_to",i_vec4_negate_to},
{"vec4_norm",i_vec4_norm},
{"vec4_norm2",i_vec4_norm2},
{"vec4_norm_inf",i_vec4_norm_inf},
{"vec4_norm_one",i_vec4_norm_one},
{"vec4_one",i_vec4_one},
{"vec4_scale",i_vec4_scale},
{"vec4_sub",i_vec4_sub},
{"vec4_subadd",i_vec4_subadd},
{"vec4_subs",i_vec4_subs},
{"vec4_subsub",i_vec4_subsub},
{"vec4_ucopy",i_vec4_ucopy},
{"vec4_zero",i_vec4_zero},
{"const_vec2_one_init",i_const_vec2_one_init},
{"const_vec2_zero_init",i_const_vec2_zero_init},
{"const_vec3_one_init",i_const_vec3_one_init},
{"const_vec3_zero_init",i_const_vec3_zero_init},
{"const_vec4_one_init",i_const_vec4_one_init},
{"const_vec4_zero_init",i_const_vec4_zero_init},
{"const_vec4_black_init",i_const_vec4_black_init},
#endif
#if defined(W_C02) || defined(W_ALL)
{"ivec2",i_ivec2},
{"ivec2_add",i_ivec2_add},
{"ivec2_addadd",i_ivec2_addadd},
{"ivec2_addadds",i_ivec2_addadds},
{"ivec2_adds",i_ivec2_adds},
{"ivec2_addsub",i_ivec2_addsub},
{"ivec2_addsubs",i_ivec2_addsubs},
{"ivec2_clamp",i_ivec2_clamp},
{"ivec2_copy",i_ivec2_copy},
{"ivec2_cross",i_ivec2_cross},
{"ivec2_distance",i_ivec2_distance},
{"ivec2_distance2",i_ivec2_distance2},
{"ivec2_div",i_ivec2_div},
{"ivec2_divs",i_ivec2_divs},
{"ivec2_dot",i_ivec2_dot},
{"ivec2_fill",i_ivec2_fill},
{"ivec2_maxadd",i_ivec2_maxadd},
{"ivec2_maxsub",i_ivec2_maxsub},
{"ivec2_maxv",i_ivec2_maxv},
{"ivec2_minadd",i_ivec2_minadd},
{"ivec2_minsub",i_ivec2_minsub},
{"ivec2_minv",i_ivec2_minv},
{"ivec2_mod",i_ivec2_mod},
{"ivec2_mul",i_ivec2_mul},
{"ivec2_muladd",i_ivec2_muladd},
{"ivec2_muladds",i_ivec2_muladds},
{"ivec2_mulsub",i_ivec2_mulsub},
{"ivec2_mulsubs",i_ivec2_mulsubs},
{"ivec2_one",i_ivec2_one},
{"ivec2_scale",i_ivec2_scale},
{"ivec2_sub",i_ivec2_sub},
{"ivec2_subadd",i_ivec2_subadd},
{"ivec2_subadds",i_ivec2_subadds},
{"ivec2_subs",i_ivec2_subs},
{"ivec2_subsub",i_ivec2_subsub},
{"ivec2_subsubs",i_ivec2_subsubs},
{"ivec2_zero",i_ivec2_zero},
{"ivec3",i_ivec3},
{"ivec3_add",i_ivec3_add},
{"ivec3_addadd",i_ivec3_addadd},
{"ivec3_addadds",i_ivec3_addadds},
{"ivec3_adds",i_ivec3_adds},
{"ivec3_addsub",i_ivec3_addsub},
{"ivec3_addsubs",i_ivec3_addsubs},
{"ivec3_clamp",i_ivec3_clamp},
{"ivec3_copy",i_ivec3_copy},
{"ivec3_distance",i_ivec3_distance},
{"ivec3_distance2",i_ivec3_distance2},
{"ivec3_div",i_ivec3_div},
{"ivec3_divs",i_ivec3_divs},
{"ivec3_dot",i_ivec3_dot},
{"ivec3_fill",i_ivec3_fill},
{"ivec3_maxadd",i_ivec3_maxadd},
{"ivec3_maxsub",i_ivec3_maxsub},
{"ivec3_maxv",i_ivec3_maxv},
{"ivec3_minadd",i_ivec3_minadd},
{"ivec3_minsub",i_ivec3_minsub},
{"ivec3_minv",i_ivec3_minv},
{"ivec3_mod",i_ivec3_mod},
{"ivec3_mul",i_ivec3_mul},
{"ivec3_muladd",i_ivec3_muladd},
{"ivec3_muladds",i_ivec3_muladds},
{"ivec3_mulsub",i_ivec3_mulsub},
{"ivec3_mulsubs",i_ivec3_mulsubs},
{"ivec3_norm",i_ivec3_norm},
{"ivec3_norm2",i_ivec3_norm2},
{"ivec3_one",i_ivec3_one},
{"ivec3_scale",i_ivec3_scale},
{"ivec3_sub",i_ivec3_sub},
{"ivec3_subadd",i_ivec3_subadd},
{"ivec3_subadds",i_ivec3_subadds},
{"ivec3_subs",i_ivec3_subs},
{"ivec3_subsub",i_ivec3_subsub},
{"ivec3_subsubs",i_ivec3_subsubs},
{"ivec3_zero",i_ivec3_zero},
{"ivec4",i_ivec4},
{"ivec4_add",i_ivec4_add},
{"ivec4_addadd",i_ivec4_addadd},
{"ivec4_addadds",i_ivec4_addadds},
{"ivec4_adds",i_ivec4_adds},
{"ivec4_addsub",i_ivec4_addsub},
{"ivec4_addsubs",i_ivec4_addsubs},
{"ivec4_clamp",i_ivec4_clamp},
{"ivec4_copy",i_ivec4_copy},
{"ivec4_distance",i_ivec4_distance},
{"ivec4_distance2",i_ivec4_distance2},
{"ivec4_maxadd",i_ivec4_maxadd},
{"ivec4_maxsub",i_ivec4_maxsub},
{"ivec4_maxv",i_ivec4_maxv},
{"ivec4_minadd",i_ivec4_minadd},
{"ivec4_minsub",i_ivec4_minsub},
{"ivec4_minv",i_ivec4_minv},
{"ivec4_mul",i_ivec4_mul},
{"ivec4_muladd",i_ivec4_muladd},
{"ivec4_muladds",i_ivec4_muladds},
{"ivec4_mulsub",i_ivec4_mulsub},
{"ivec4_mulsubs",i_ivec4_mulsubs},
{"ivec4_one",i_ivec4_one},
{"ivec4_scale",i_ivec4_scale},
{"ivec4_sub",i_ivec4_sub},
{"ivec4_subadd",i_ivec4_subadd},
{"ivec4_subadds",i_ivec4_subadds},
{"ivec4_subs",i_ivec4_subs},
{"ivec4_subsub",i_ivec4_subsub},
{"ivec4_subsubs",i_ivec4_subsubs},
{"ivec4_zero",i_ivec4_zero},
{"const_ivec2_one_init",i_const_ivec2_one_init},
{"const_ivec2_zero_init",i_const_ivec2_zero_init},
{"const_ivec3_one_init",i_const_ivec3_one_init},
{"const_ivec3_zero_init",i_const_ivec3_zero_init},
{"const_ivec4_one_init",i_const_ivec4_one_init},
{"const_ivec4_zero_init",i_const_ivec4_zero_init},
#endif
#if defined(W_C02) || defined(W_C03) || defined(W_ALL)
{"ivec2_abs",i_ivec2_abs},
{"ivec2_eq",i_ivec2_eq},
{"ivec2_eqv",i_ivec2_eqv},
{"ivec3_abs",i_ivec3_abs},
{"ivec3_eq",i_ivec3_eq},
{"ivec3_eqv",i_ivec3_eqv},
{"ivec4_abs",i_ivec4_abs},
#endif
#if defined(W_C03) || defined(W_ALL)
{"vec2_abs",i_vec2_abs},
{"vec2_eq",i_vec2_eq},
{"vec2_eq_all",i_vec2_eq_all},
{"vec2_eq_eps",i_vec2_eq_eps},
{"vec2_eqv",i_vec2_eqv},
{"vec2_eqv_eps",i_vec2_eqv_eps},
{"vec2_floor",i_vec2_floor},
{"vec2_fract",i_vec2_fract},
{"vec2_isinf",i_vec2_isinf},
{"vec2_isnan",i_vec2_isnan},
{"vec2_isvalid",i_vec2_isvalid},
{"vec2_max",i_vec2_max},
{"vec2_min",i_vec2_min},
{"vec2_mods",i_vec2_mods},
{"vec2_sign",i_vec2_sign},
{"vec2_sqrt",i_vec2_sqrt},
{"vec2_swizzle",i_vec2_swizzle},
{"vec3_abs",i_vec3_abs},
{"vec3_eq",i_vec3_eq},
{"vec3_eq_all",i_vec3_eq_all},
{"vec3_eq_eps",i_vec3_eq_eps},
{"vec3_eqv",i_vec3_eqv},
{"vec3_eqv_eps",i_vec3_eqv_eps},
{"vec3_floor",i_vec3_floor},
{"vec3_fract",i_vec3_fract},
{"vec3_isinf",i_vec3_isinf},
{"vec3_isnan",i_vec3_isnan},
{"vec3_isvalid",i_vec3_isvalid},
{"vec3_max",i_vec3_max},
{"vec3_min",i_vec3_min},
{"vec3_mods",i_vec3_mods},
{"vec3_sign",i_vec3_sign},
{"vec3_sqrt",i_vec3_sqrt},
{"vec3_swizzle",i_vec3_swizzle},
{"vec4_abs",i_vec4_abs},
{"vec4_eq",i_vec4_eq},
{"vec4_eq_all",i_vec4_eq_all},
{"vec4_eq_eps",i_vec4_eq_eps},
{"vec4_eqv",i_vec4_eqv},
{"vec4_eqv_eps",i_vec4_eqv_eps},
{"vec4_floor",i_vec4_floor},
{"vec4_fract",i_vec4_fract},
{"vec4_isinf",i_vec4_isinf},
{"vec4_isnan",i_vec4_isnan},
{"vec4_isvalid",i_vec4_isvalid},
{"vec4_max",i_vec4_max},
{"vec4_min",i_vec4_min},
{"vec4_mods",i_vec4_mods},
{"vec4_sign",i_vec4_sign},
{"vec4_sqrt",i_vec4_sqrt},
{"vec4_swizzle",i_vec4_swizzle},
{"const_xxx",i_const_xxx},
{"const_yyy",i_const_yyy},
{"const_zzz",i_const_zzz},
{"const_zyx",i_const_zyx},
{"const_xxxx",i_const_xxxx},
{"const_yyyy",i_const_yyyy},
{"const_zzzz",i_const_zzzz},
{"const_wwww",i_const_wwww},
{"const_wzyx",i_const_wzyx},
{"shuffle2",i_shuffle2},
{"shuffle3",i_shuffle3},
{"shuffle4",i_shuffle4},
#endif
#if defined(W_C03) || defined(W_C04) || defined(W_ALL)
{"vec2_step",i_vec2_step},
{"vec2_stepr",i_vec2_stepr},
{"vec2_steps",i_vec2_steps},
{"vec3_step",i_vec3_step},
{"vec3_step_uni",i_vec3_step_uni},
{"vec3_stepr",i_vec3_stepr},
{"vec3_steps",i_vec3_steps},
{"vec4_step",i_vec4_step},
{"vec4_step_uni",i_vec4_step_uni},
{"vec4_stepr",i_vec4_stepr},
{"vec4_steps",i_vec4_steps},
#endif
#if defined(W_C04) || defined(W_ALL)
{"clamp",i_clamp},
{"deg",i_deg},
{"eq",i_eq},
{"imax",i_imax},
{"imin",i_imin},
{"lerp",i_lerp},
{"lerpc",i_lerpc},
{"luminance",i_luminance},
{"make_deg",i_make_deg},
{"make_rad",i_make_rad},
{"max",i_max},
{"min",i_min},
{"percent",i_percent},
{"percentc",i_percentc},
{"pow2",i_pow2},
{"rad",i_rad},
{"sign",i_sign},
{"signf",i_signf},
{"smooth",i_smooth},
{"smoothinterp",i_smoothinterp},
{"smoothinterpc",i_smoothinterpc},
{"smoothstep",i_smoothstep},
{"step",i_step},
{"swapf",i_swapf},
{"vec2_lerp",i_vec2_lerp},
{"vec3_lerp",i_vec3_lerp},
{"vec3_lerpc",i_vec3_lerpc},
{"vec3_mix",i_vec3_mix},
{"vec3_mixc",i_vec3_mixc},
{"vec3_smoothinterp",i_vec3_smoothinterp},
{"vec3_smoothinterpc",i_vec3_smoothinterpc},
{"vec3_smoothstep",i_vec3_smoothstep},
{"vec3_smoothstep_uni",i_vec3_smoothstep_uni},
{"vec4_lerp",i_vec4_lerp},
{"vec4_lerpc",i_vec4_lerpc},
{"vec4_mix",i_vec4_mix},
{"vec4_mixc",i_vec4_mixc},
{"vec4_smoothinterp",i_vec4_smoothinterp},
{"vec4_smoothinterpc",i_vec4_smoothinterpc},
{"vec4_smoothstep",i_vec4_smoothstep},
{"vec4_smoothstep_uni",i_vec4_smoothstep_uni},
{"macro_min",i_macro_min},
{"macro_max",i_macro_max},
{"const_e",i_const_e},
{"const_ef",i_const_ef},
{"const_log2e",i_const_log2e},
{"const_log2ef",i_const_log2ef},
{"const_log10e",i_const_log10e},
{"const_log10ef",i_const_log10ef},
{"const_ln2",i_const_ln2},
{"const_ln2f",i_const_ln2f},
{"const_ln10",i_const_ln10},
{"const_ln10f",i_const_ln10f},
{"const_pi",i_const_pi},
{"const_pif",i_const_pif},
{"const_pi_2",i_const_pi_2},
{"const_pi_2f",i_const_pi_2f},
{"const_pi_4",i_const_pi_4},
{"const_pi_4f",i_const_pi_4f},
{"const_1_pi",i_const_1_pi},
{"const_1_pif",i_const_1_pif},
{"const_2_pi",i_const_2_pi},
{"const_2_pif",i_const_2_pif},
{"const_tau",i_const_tau},
{"const_tauf",i_const_tauf},
{"const_tau_2",i_const_tau_2},
{"const_tau_2f",i_const_tau_2f},
{"const_tau_4",i_const_tau_4},
{"const_tau_4f",i_const_tau_4f},
{"const_1_tau",i_const_1_tau},
{"const_1_tauf",i_const_1_tauf},
{"const_2_tau",i_const_2_tau},
{"const_2_tauf",i_const_2_tauf},
{"const_sqrt2",i_const_sqrt2},
{"const_sqrt2f",i_const_sqrt2f},
{"const_sqrt1_2",i_const_sqrt1_2},
{"const_sqrt1_2f",i_const_sqrt1_2f},
{"const_2_sqrtpif",i_const_2_sqrtpif},
{"const_2_sqrtpi",i_const_2_sqrtpi},
{"const_sqrttau",i_const_sqrttau},
{"const_pi_old",i_const_pi_old},
{"const_pi_2_old",i_const_pi_2_old},
{"const_pi_4_old",i_const_pi_4_old},
#endif
#if (defined(W_C04) || defined(W_ALL)) && !defined(PLAIN)
{"clamp_zo",i_clamp_zo},
#endif
#if defined(W_C05) || defined(W_ALL)
{"normalize",i_normalize},
{"normalize_to",i_normalize_to},
{"vec2_center",i_vec2_center},
{"vec2_normalize",i_vec2_normalize},
{"vec2_normalize_to",i_vec2_normalize_to},
{"vec2_reflect",i_vec2_reflect},
{"vec2_refract",i_vec2_refract},
{"vec2_rotate",i_vec2_rotate},
{"vec2_scale_as",i_vec2_scale_as},
{"vec3_angle",i_vec3_angle},
{"vec3_center",i_vec3_center},
{"vec3_crossn",i_vec3_crossn},
{"vec3_faceforward",i_vec3_faceforward},
{"vec3_normalize",i_vec3_normalize},
{"vec3_normalize_to",i_vec3_normalize_to},
{"vec3_ortho",i_vec3_ortho},
{"vec3_proj",i_vec3_proj},
{"vec3_reflect",i_vec3_reflect},
{"vec3_refract",i_vec3_refract},
{"vec3_rotate",i_vec3_rotate},
{"vec3_rotate_m3",i_vec3_rotate_m3},
{"vec3_rotate_m4",i_vec3_rotate_m4},
{"vec3_scale_as",i_vec3_scale_as},
{"vec4_normalize",i_vec4_normalize},
{"vec4_normalize_to",i_vec4_normalize_to},
{"vec4_reflect",i_vec4_reflect},
{"vec4_refract",i_vec4_refract},
{"vec4_scale_as",i_vec4_scale_as},
#endif
#if defined(W_C06) || defined(W_ALL)
{"mat2_copy",i_mat2_copy},
{"mat2_identity",i_mat2_identity},
{"mat2_identity_array",i_mat2_identity_array},
{"mat2_make",i_mat2_make},
{"mat2_mul",i_mat2_mul},
{"mat2_mulv",i_mat2_mulv},
{"mat2_rmc",i_mat2_rmc},
{"mat2_scale",i_mat2_scale},
{"mat2_swap_col",i_mat2_swap_col},
{"mat2_swap_row",i_mat2_swap_row},
{"mat2_trace",i_mat2_trace},
{"mat2_transpose",i_mat2_transpose},
{"mat2_transpose_to",i_mat2_transpose_to},
{"mat2_zero",i_mat2_zero},
{"mat2x3_copy",i_mat2x3_copy},
{"mat2x3_make",i_mat2x3_make},
{"mat2x3_mul",i_mat2x3_mul},
{"mat2x3_mulv",i_mat2x3_mulv},
{"mat2x3_scale",i_mat2x3_scale},
{"mat2x3_transpose",i_mat2x3_transpose},
{"mat2x3_zero",i_mat2x3_zero},
{"mat2x4_copy",i_mat2x4_copy},
{"mat2x4_make",i_mat2x4_make},
{"mat2x4_mul",i_mat2x4_mul},
{"mat2x4_mulv",i_mat2x4_mulv},
{"mat2x4_scale",i_mat2x4_scale},
{"mat2x4_transpose",i_mat2x4_transpose},
{"mat2x4_zero",i_mat2x4_zero},
{"mat3_copy",i_mat3_copy},
{"mat3_dup",i_mat3_dup},
{"mat3_identity",i_mat3_identity},
{"mat3_identity_array",i_mat3_identity_array},
{"mat3_make",i_mat3_make},
{"mat3_mul",i_mat3_mul},
{"mat3_mulv",i_mat3_mulv},
{"mat3_rmc",i_mat3_rmc},
{"mat3_scale",i_mat3_scale},
{"mat3_swap_col",i_mat3_swap_col},
{"mat3_swap_row",i_mat3_swap_row},
{"mat3_trace",i_mat3_trace},
{"mat3_transpose",i_mat3_transpose},
{"mat3_transpose_to",i_mat3_transpose_to},
{"mat3_zero",i_mat3_zero},
{"mat3x2_copy",i_mat3x2_copy},
{"mat3x2_make",i_mat3x2_make},
{"mat3x2_mul",i_mat3x2_mul},
{"mat3x2_mulv",i_mat3x2_mulv},
{"mat3x2_scale",i_mat3x2_scale},
{"mat3x2_transpose",i_mat3x2_transpose},
{"mat3x2_zero",i_mat3x2_zero},
{"mat3x4_copy",i_mat3x4_copy},
{"mat3x4_make",i_mat3x4_make},
{"mat3x4_mul",i_mat3x4_mul},
{"mat3x4_mulv",i_mat3x4_mulv},
{"mat3x4_scale",i_mat3x4_scale},
{"mat3x4_transpose",i_mat3x4_transpose},
{"mat3x4_zero",i_mat3x4_zero},
{"mat4_copy",i_mat4_copy},
{"mat4_dup",i_mat4_dup},
{"mat4_identity",i_mat4_identity},
{"mat4_identity_array",i_mat4_identity_array},
{"mat4_ins3",i_mat4_ins3},
{"mat4_make",i_mat4_make},
{"mat4_mul",i_mat4_mul},
{"mat4_mulN",i_mat4_mulN},
{"mat4_mulv",i_mat4_mulv},
{"mat4_mulv3",i_mat4_mulv3},
{"mat4_pick3",i_mat4_pick3},
{"mat4_pick3t",i_mat4_pick3t},
{"mat4_rmc",i_mat4_rmc},
{"mat4_scale",i_mat4_scale},
{"mat4_scale_p",i_mat4_scale_p},
{"mat4_swap_col",i_mat4_swap_col},
{"mat4_swap_row",i_mat4_swap_row},
{"mat4_trace",i_mat4_trace},
{"mat4_trace3",i_mat4_trace3},
{"mat4_transpose",i_mat4_transpose},
{"mat4_transpose_to",i_mat4_transpose_to},
{"mat4_ucopy",i_mat4_ucopy},
{"mat4_udup",i_mat4_udup},
{"mat4_zero",i_mat4_zero},
{"mat4x2_copy",i_mat4x2_copy},
{"mat4x2_make",i_mat4x2_make},
{"mat4x2_mul",i_mat4x2_mul},
{"mat4x2_mulv",i_mat4x2_mulv},
{"mat4x2_scale",i_mat4x2_scale},
{"mat4x2_transpose",i_mat4x2_transpose},
{"mat4x2_zero",i_mat4x2_zero},
{"mat4x3_copy",i_mat4x3_copy},
{"mat4x3_make",i_mat4x3_make},
{"mat4x3_mul",i_mat4x3_mul},
{"mat4x3_mulv",i_mat4x3_mulv},
{"mat4x3_scale",i_mat4x3_scale},
{"mat4x3_transpose",i_mat4x3_transpose},
{"mat4x3_zero",i_mat4x3_zero},
{"const_mat2_zero_init",i_const_mat2_zero_init},
{"const_mat2_identity_init",i_const_mat2_identity_init},
{"const_mat2x3_zero_init",i_const_mat2x3_zero_init},
{"const_mat2x3_zero",i_const_mat2x3_zero},
{"const_mat2x4_zero_init",i_const_mat2x4_zero_init},
{"const_mat2x4_zero",i_const_mat2x4_zero},
{"const_mat3x2_zero_init",i_const_mat3x2_zero_init},
{"const_mat3x2_zero",i_const_mat3x2_zero},
{"const_mat3_zero_init",i_const_mat3_zero_init},
{"const_mat3_identity_init",i_const_mat3_identity_init},
{"const_mat3x4_zero_init",i_const_mat3x4_zero_init},
{"const_mat3x4_zero",i_const_mat3x4_zero},
{"const_mat4x2_zero_init",i_const_mat4x2_zero_init},
{"const_mat4x2_zero",i_const_mat4x2_zero},
{"const_mat4x3_zero_init",i_const_mat4x3_zero_init},
{"const_mat4x3_zero",i_const_mat4x3_zero},
{"const_mat4_zero_init",i_const_mat4_zero_init},
{"const_mat4_identity_init",i_const_mat4_identity_init},
#endif
#if defined(W_C07) || defined(W_ALL)
{"mat2_det",i_mat2_det},
{"mat2_inv",i_mat2_inv},
{"mat3_det",i_mat3_det},
{"mat3_inv",i_mat3_inv},
{"mat4_det",i_mat4_det},
{"mat4_inv",i_mat4_inv},
{"mat4_inv_fast",i_mat4_inv_fast},
{"mat4_inv_precise",i_mat4_inv_precise},
#endif
#if defined(W_C08) || defined(W_ALL)
{"decompose",i_decompose},
{"decompose_rs",i_decompose_rs},
{"decompose_scalev",i_decompose_scalev},
{"inv_tr",i_inv_tr},
{"mul",i_mul},
{"mul_rot",i_mul_rot},
{"rotate",i_rotate},
{"rotate_at",i_rotate_at},
{"rotate_atm",i_rotate_atm},
{"rotate_make",i_rotate_make},
{"rotate_x",i_rotate_x},
{"rotate_y",i_rotate_y},
{"rotate_z",i_rotate_z},
{"rotated",i_rotated},
{"rotated_at",i_rotated_at},
{"rotated_x",i_rotated_x},
{"rotated_y",i_rotated_y},
{"rotated_z",i_rotated_z},
{"scale",i_scale},
{"scale_make",i_scale_make},
{"scale_to",i_scale_to},
{"scale_uni",i_scale_uni},
{"spin",i_spin},
{"spinned",i_spinned},
{"translate",i_translate},
{"translate_make",i_translate_make},
{"translate_to",i_translate_to},
{"translate_x",i_translate_x},
{"translate_y",i_translate_y},
{"translate_z",i_translate_z},
{"translated",i_translated},
{"translated_to",i_translated_to},
{"translated_x",i_translated_x},
{"translated_y",i_translated_y},
{"translated_z",i_translated_z},
{"uniscaled",i_uniscaled},
#endif
#if defined(W_C09) || defined(W_ALL)
{"mat3_textrans",i_mat3_textrans},
{"mat4_textrans",i_mat4_textrans},
{"rotate2d",i_rotate2d},
{"rotate2d_make",i_rotate2d_make},
{"rotate2d_to",i_rotate2d_to},
{"rotated2d",i_rotated2d},
{"scale2d",i_scale2d},
{"scale2d_make",i_scale2d_make},
{"scale2d_to",i_scale2d_to},
{"scale2d_uni",i_scale2d_uni},
{"scaled2d",i_scaled2d},
{"scaled2d_uni",i_scaled2d_uni},
{"translate2d",i_translate2d},
{"translate2d_make",i_translate2d_make},
{"translate2d_to",i_translate2d_to},
{"translate2d_x",i_translate2d_x},
{"translate2d_y",i_translate2d_y},
{"translated2d",i_translated2d},
{"translated2d_x",i_translated2d_x},
{"translated2d_y",i_translated2d_y},
#endif
#if defined(W_C10) || defined(W_ALL)
{"quat",i_quat},
{"quat_add",i_quat_add},
{"quat_angle",i_quat_angle},
{"quat_axis",i_quat_axis},
{"quat_conjugate",i_quat_conjugate},
{"quat_copy",i_quat_copy},
{"quat_dot",i_quat_dot},
{"quat_from_vecs",i_quat_from_vecs},
{"quat_identity",i_quat_identity},
{"quat_identity_array",i_quat_identity_array},
{"quat_imag",i_quat_imag},
{"quat_imaglen",i_quat_imaglen},
{"quat_imagn",i_quat_imagn},
{"quat_init",i_quat_init},
{"quat_inv",i_quat_inv},
{"quat_make",i_quat_make},
{"quat_mul",i_quat_mul},
{"quat_norm",i_quat_norm},
{"quat_normalize",i_quat_normalize},
{"quat_normalize_to",i_quat_normalize_to},
{"quat_real",i_quat_real},
{"quat_sub",i_quat_sub},
{"quatv",i_quatv},
{"const_quat_identity_init",i_const_quat_identity_init},
#endif
#if defined(W_C10) || defined(W_C11) || defined(W_ALL)
{"quat_rotatev",i_quat_rotatev},
#endif
#if defined(W_C11) || defined(W_ALL)
{"mat3_quat",i_mat3_quat},
{"mat4_quat",i_mat4_quat},
{"quat_for",i_quat_for},
{"quat_forp",i_quat_forp},
{"quat_look",i_quat_look},
{"quat_mat3",i_quat_mat3},
{"quat_mat3t",i_quat_mat3t},
{"quat_mat4",i_quat_mat4},
{"quat_mat4t",i_quat_mat4t},
{"quat_rotate",i_quat_rotate},
{"quat_rotate_at",i_quat_rotate_at},
{"quat_rotate_atm",i_quat_rotate_atm},
#endif
#if defined(W_C12) || defined(W_ALL)
{"quat_lerp",i_quat_lerp},
{"quat_lerpc",i_quat_lerpc},
{"quat_nlerp",i_quat_nlerp},
{"quat_slerp",i_quat_slerp},
{"quat_slerp_longest",i_quat_slerp_longest},
#endif
#if defined(W_C13) || defined(W_ALL)
{"euler",i_euler},
{"euler_angles",i_euler_angles},
{"euler_by_order",i_euler_by_order},
{"euler_order",i_euler_order},
{"euler_xyz",i_euler_xyz},
{"euler_xyz_quat",i_euler_xyz_quat},
{"euler_xzy",i_euler_xzy},
{"euler_xzy_quat",i_euler_xzy_quat},
{"euler_yxz",i_euler_yxz},
{"euler_yxz_quat",i_euler_yxz_quat},
{"euler_yzx",i_euler_yzx},
{"euler_yzx_quat",i_euler_yzx_quat},
{"euler_zxy",i_euler_zxy},
{"euler_zxy_quat",i_euler_zxy_quat},
{"euler_zyx",i_euler_zyx},
{"euler_zyx_quat",i_euler_zyx_quat},
{"const_euler_xyz",i_const_euler_xyz},
{"const_euler_xzy",i_const_euler_xzy},
{"const_euler_yxz",i_const_euler_yxz},
{"const_euler_yzx",i_const_euler_yzx},
{"const_euler_zxy",i_const_euler_zxy},
{"const_euler_zyx",i_const_euler_zyx},
#endif
#if (defined(W_C13) || defined(W_ALL)) && !defined(PLAIN)
{"euler_xyz_quat_lh",i_euler_xyz_quat_lh},
{"euler_xyz_quat_rh",i_euler_xyz_quat_rh},
{"euler_xzy_quat_lh",i_euler_xzy_quat_lh},
{"euler_xzy_quat_rh",i_euler_xzy_quat_rh},
{"euler_yxz_quat_lh",i_euler_yxz_quat_lh},
{"euler_yxz_quat_rh",i_euler_yxz_quat_rh},
{"euler_yzx_quat_lh",i_euler_yzx_quat_lh},
{"euler_yzx_quat_rh",i_euler_yzx_quat_rh},
{"euler_zxy_quat_lh",i_euler_zxy_quat_lh},
{"euler_zxy_quat_rh",i_euler_zxy_quat_rh},
{"euler_zyx_quat_lh",i_euler_zyx_quat_lh},
{"euler_zyx_quat_rh",i_euler_zyx_quat_rh},
#endif
#if defined(W_C14) || defined(W_ALL)
{"look",i_look},
{"look_anyup",i_look_anyup},
{"lookat",i_lookat},
#endif
#if (defined(W_C14) || defined(W_ALL)) && !defined(PLAIN)
{"look_anyup_lh",i_look_anyup_lh},
{"look_anyup_lh_no",i_look_anyup_lh_no},
{"look_anyup_lh_zo",i_look_anyup_lh_zo},
{"look_anyup_rh",i_look_anyup_rh},
{"look_anyup_rh_no",i_look_anyup_rh_no},
{"look_anyup_rh_zo",i_look_anyup_rh_zo},
{"look_lh",i_look_lh},
{"look_lh_no",i_look_lh_no},
{"look_lh_zo",i_look_lh_zo},
{"look_rh",i_look_rh},
{"look_rh_no",i_look_rh_no},
{"look_rh_zo",i_look_rh_zo},
{"lookat_lh",i_lookat_lh},
{"lookat_lh_no",i_lookat_lh_no},
{"lookat_lh_zo",i_lookat_lh_zo},
{"lookat_rh",i_lookat_rh},
{"lookat_rh_no",i_lookat_rh_no},
{"lookat_rh_zo",i_lookat_rh_zo},
#endif
#if defined(W_C15) || defined(W_ALL)
{"frustum",i_frustum},
{"ortho",i_ortho},
{"ortho_aabb",i_ortho_aabb},
{"ortho_aabb_p",i_ortho_aabb_p},
{"ortho_aabb_pz",i_ortho_aabb_pz},
{"ortho_default",i_ortho_default},
{"ortho_default_s",i_ortho_default_s},
{"perspective",i_perspective},
{"perspective_default",i_perspective_default},
#endif
#if (defined(W_C15) || defined(W_ALL)) && !defined(PLAIN)
{"frustum_lh_no",i_frustum_lh_no},
{"frustum_lh_zo",i_frustum_lh_zo},
{"frustum_rh_no",i_frustum_rh_no},
{"frustum_rh_zo",i_frustum_rh_zo},
{"ortho_aabb_lh_no",i_ortho_aabb_lh_no},
{"ortho_aabb_lh_zo",i_ortho_aabb_lh_zo},
{"ortho_aabb_p_lh_no",i_ortho_aabb_p_lh_no},
{"ortho_aabb_p_lh_zo",i_ortho_aabb_p_lh_zo},
{"ortho_aabb_p_rh_no",i_ortho_aabb_p_rh_no},
{"ortho_aabb_p_rh_zo",i_ortho_aabb_p_rh_zo},
{"ortho_aabb_pz_lh_no",i_ortho_aabb_pz_lh_no},
{"ortho_aabb_pz_lh_zo",i_ortho_aabb_pz_lh_zo},
{"ortho_aabb_pz_rh_no",i_ortho_aabb_pz_rh_no},
{"ortho_aabb_pz_rh_zo",i_ortho_aabb_pz_rh_zo},
{"ortho_aabb_rh_no",i_ortho_aabb_rh_no},
{"ortho_aabb_rh_zo",i_ortho_aabb_rh_zo},
{"ortho_default_lh_no",i_ortho_default_lh_no},
{"ortho_default_lh_zo",i_ortho_default_lh_zo},
{"ortho_default_rh_no",i_ortho_default_rh_no},
{"ortho_default_rh_zo",i_ortho_default_rh_zo},
{"ortho_default_s_lh_no",i_ortho_default_s_lh_no},
{"ortho_default_s_lh_zo",i_ortho_default_s_lh_zo},
{"ortho_default_s_rh_no",i_ortho_default_s_rh_no},
{"ortho_default_s_rh_zo",i_ortho_default_s_rh_zo},
{"ortho_lh_no",i_ortho_lh_no},
{"ortho_lh_zo",i_ortho_lh_zo},
{"ortho_rh_no",i_ortho_rh_no},
{"ortho_rh_zo",i_ortho_rh_zo},
{"perspective_default_lh_no",i_perspective_default_lh_no},
{"perspective_default_lh_zo",i_perspective_default_lh_zo},
{"perspective_default_rh_no",i_perspective_default_rh_no},
{"perspective_default_rh_zo",i_perspective_default_rh_zo},
{"perspective_lh_no",i_perspective_lh_no},
{"perspective_lh_zo",i_perspective_lh_zo},
{"perspective_rh_no",i_perspective_rh_no},
{"perspective_rh_zo",i_perspective_rh_zo},
#endif
#if defined(W_C15) || defined(W_C16) || defined(W_ALL)
{"perspective_resize",i_perspective_resize},
#endif
#if (defined(W_C15) || defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
{"perspective_resize_lh_no",i_perspective_resize_lh_no},
{"perspective_resize_lh_zo",i_perspective_resize_lh_zo},
{"perspective_resize_rh_no",i_perspective_resize_rh_no},
{"perspective_resize_rh_zo",i_perspective_resize_rh_zo},
#endif
#if defined(W_C16) || defined(W_ALL)
{"persp_aspect",i_persp_aspect},
{"persp_decomp",i_persp_decomp},
{"persp_decomp_far",i_persp_decomp_far},
{"persp_decomp_near",i_persp_decomp_near},
{"persp_decomp_x",i_persp_decomp_x},
{"persp_decomp_y",i_persp_decomp_y},
{"persp_decomp_z",i_persp_decomp_z},
{"persp_decompv",i_persp_decompv},
{"persp_fovy",i_persp_fovy},
{"persp_move_far",i_persp_move_far},
{"persp_sizes",i_persp_sizes},
#endif
#if (defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
{"persp_aspect_lh_no",i_persp_aspect_lh_no},
{"persp_aspect_lh_zo",i_persp_aspect_lh_zo},
{"persp_aspect_rh_no",i_persp_aspect_rh_no},
{"persp_aspect_rh_zo",i_persp_aspect_rh_zo},
{"persp_decomp_far_lh_no",i_persp_decomp_far_lh_no},
{"persp_decomp_far_lh_zo",i_persp_decomp_far_lh_zo},
{"persp_decomp_far_rh_no",i_persp_decomp_far_rh_no},
{"persp_decomp_far_rh_zo",i_persp_decomp_far_rh_zo},
{"persp_decomp_lh_no",i_persp_decomp_lh_no},
{"persp_decomp_lh_zo",i_persp_decomp_lh_zo},
{"persp_decomp_near_lh_no",i_persp_decomp_near_lh_no},
{"persp_decomp_near_lh_zo",i_persp_decomp_near_lh_zo},
{"persp_decomp_near_rh_no",i_persp_decomp_near_rh_no},
{"persp_decomp_near_rh_zo",i_persp_decomp_near_rh_zo},
{"persp_decomp_rh_no",i_persp_decomp_rh_no},
{"persp_decomp_rh_zo",i_persp_decomp_rh_zo},
{"persp_decomp_x_lh_no",i_persp_decomp_x_lh_no},
{"persp_decomp_x_lh_zo",i_persp_decomp_x_lh_zo},
{"persp_decomp_x_rh_no",i_persp_decomp_x_rh_no},
{"persp_decomp_x_rh_zo",i_persp_decomp_x_rh_zo},
{"persp_decomp_y_lh_no",i_persp_decomp_y_lh_no},
{"persp_decomp_y_lh_zo",i_persp_decomp_y_lh_zo},
{"persp_decomp_y_rh_no",i_persp_decomp_y_rh_no},
{"persp_decomp_y_rh_zo",i_persp_decomp_y_rh_zo},
{"persp_decomp_z_lh_no",i_persp_decomp_z_lh_no},
{"persp_decomp_z_lh_zo",i_persp_decomp_z_lh_zo},
{"persp_decomp_z_rh_no",i_persp_decomp_z_rh_no},
{"persp_decomp_z_rh_zo",i_persp_decomp_z_rh_zo},
{"persp_decompv_lh_no",i_persp_decompv_lh_no},
{"persp_decompv_lh_zo",i_persp_decompv_lh_zo},
{"persp_decompv_rh_no",i_persp_decompv_rh_no},
{"persp_decompv_rh_zo",i_persp_decompv_rh_zo},
{"persp_fovy_lh_no",i_persp_fovy_lh_no},
{"persp_fovy_lh_zo",i_persp_fovy_lh_zo},
{"persp_fovy_rh_no",i_persp_fovy_rh_no},
{"persp_fovy_rh_zo",i_persp_fovy_rh_zo},
{"persp_move_far_lh_no",i_persp_move_far_lh_no},
{"persp_move_far_lh_zo",i_persp_move_far_lh_zo},
{"persp_move_far_rh_no",i_persp_move_far_rh_no},
{"persp_move_far_rh_zo",i_persp_move_far_rh_zo},
{"persp_sizes_lh_no",i_persp_sizes_lh_no},
{"persp_sizes_lh_zo",i_persp_sizes_lh_zo},
{"persp_sizes_rh_no",i_persp_sizes_rh_no},
{"persp_sizes_rh_zo",i_persp_sizes_rh_zo},
#endif
#if defined(W_C17) || defined(W_ALL)
{"pickmatrix",i_pickmatrix},
{"project",i_project},
{"project_z",i_project_z},
{"unproject",i_unproject},
{"unprojecti",i_unprojecti},
#endif
#if (defined(W_C17) || defined(W_ALL)) && !defined(PLAIN)
{"project_no",i_project_no},
{"project_z_no",i_project_z_no},
{"project_z_zo",i_project_z_zo},
{"project_zo",i_project_zo},
{"unprojecti_no",i_unprojecti_no},
{"unprojecti_zo",i_unprojecti_zo},
#endif
#if defined(W_C18) || defined(W_ALL)
{"aabb_frustum",i_aabb_frustum},
{"frustum_box",i_frustum_box},
{"frustum_center",i_frustum_center},
{"frustum_corners",i_frustum_corners},
{"frustum_corners_at",i_frustum_corners_at},
{"frustum_planes",i_frustum_planes},
{"plane_normalize",i_plane_normalize},
{"const_cscoord_lbn",i_const_cscoord_lbn},
{"const_cscoord_ltn",i_const_cscoord_ltn},
{"const_cscoord_rtn",i_const_cscoord_rtn},
{"const_cscoord_rbn",i_const_cscoord_rbn},
{"const_cscoord_lbf",i_const_cscoord_lbf},
{"const_cscoord_ltf",i_const_cscoord_ltf},
{"const_cscoord_rtf",i_const_cscoord_rtf},
{"const_cscoord_rbf",i_const_cscoord_rbf},
{"const_lbn",i_const_lbn},
{"const_ltn",i_const_ltn},
{"const_rtn",i_const_rtn},
{"const_rbn",i_const_rbn},
{"const_lbf",i_const_lbf},
{"const_ltf",i_const_ltf},
{"const_rtf",i_const_rtf},
{"const_rbf",i_const_rbf},
{"const_left",i_const_left},
{"const_right",i_const_right},
{"const_bottom",i_const_bottom},
{"const_top",i_const_top},
{"const_near",i_const_near},
{"const_far",i_const_far},
#endif
#if defined(W_C19) || defined(W_ALL)
{"aabb2d_aabb",i_aabb2d_aabb},
{"aabb2d_center",i_aabb2d_center},
{"aabb2d_circle",i_aabb2d_circle},
{"aabb2d_contains",i_aabb2d_contains},
{"aabb2d_copy",i_aabb2d_copy},
{"aabb2d_crop",i_aabb2d_crop},
{"aabb2d_crop_until",i_aabb2d_crop_until},
{"aabb2d_diag",i_aabb2d_diag},
{"aabb2d_invalidate",i_aabb2d_invalidate},
{"aabb2d_isvalid",i_aabb2d_isvalid},
{"aabb2d_merge",i_aabb2d_merge},
{"aabb2d_point",i_aabb2d_point},
{"aabb2d_radius",i_aabb2d_radius},
{"aabb2d_size",i_aabb2d_size},
{"aabb2d_sizev",i_aabb2d_sizev},
{"aabb2d_transform",i_aabb2d_transform},
{"aabb2d_zero",i_aabb2d_zero},
{"aabb_aabb",i_aabb_aabb},
{"aabb_center",i_aabb_center},
{"aabb_contains",i_aabb_contains},
{"aabb_crop",i_aabb_crop},
{"aabb_crop_until",i_aabb_crop_until},
{"aabb_invalidate",i_aabb_invalidate},
{"aabb_isvalid",i_aabb_isvalid},
{"aabb_merge",i_aabb_merge},
{"aabb_point",i_aabb_point},
{"aabb_radius",i_aabb_radius},
{"aabb_size",i_aabb_size},
{"aabb_sphere",i_aabb_sphere},
{"aabb_transform",i_aabb_transform},
#endif
#if defined(W_C20) || defined(W_ALL)
{"ray_at",i_ray_at},
{"ray_sphere",i_ray_sphere},
{"ray_triangle",i_ray_triangle},
{"sphere_merge",i_sphere_merge},
{"sphere_point",i_sphere_point},
{"sphere_radii",i_sphere_radii},
{"sphere_sphere",i_sphere_sphere},
{"sphere_transform",i_sphere_transform},
#endif
#if defined(W_C21) || defined(W_ALL)
{"bezier",i_bezier},
{"decasteljau",i_decasteljau},
{"ease_back_in",i_ease_back_in},
{"ease_back_inout",i_ease_back_inout},
{"ease_back_out",i_ease_back_out},
{"ease_bounce_in",i_ease_bounce_in},
{"ease_bounce_inout",i_ease_bounce_inout},
{"ease_bounce_out",i_ease_bounce_out},
{"ease_circ_in",i_ease_circ_in},
{"ease_circ_inout",i_ease_circ_inout},
{"ease_circ_out",i_ease_circ_out},
{"ease_cubic_in",i_ease_cubic_in},
{"ease_cubic_inout",i_ease_cubic_inout},
{"ease_cubic_out",i_ease_cubic_out},
{"ease_elast_in",i_ease_elast_in},
{"ease_elast_inout",i_ease_elast_inout},
{"ease_elast_out",i_ease_elast_out},
{"ease_exp_in",i_ease_exp_in},
{"ease_exp_inout",i_ease_exp_inout},
{"ease_exp_out",i_ease_exp_out},
{"ease_linear",i_ease_linear},
{"ease_quad_in",i_ease_quad_in},
{"ease_quad_inout",i_ease_quad_inout},
{"ease_quad_out",i_ease_quad_out},
{"ease_quart_in",i_ease_quart_in},
{"ease_quart_inout",i_ease_quart_inout},
{"ease_quart_out",i_ease_quart_out},
{"ease_quint_in",i_ease_quint_in},
{"ease_quint_inout",i_ease_quint_inout},
{"ease_quint_out",i_ease_quint_out},
{"ease_sine_in",i_ease_sine_in},
{"ease_sine_inout",i_ease_sine_inout},
{"ease_sine_out",i_ease_sine_out},
{"hermite",i_hermite},
{"smc",i_smc},
{"const_bezier_mat_init",i_const_bezier_mat_init},
{"const_hermite_mat_init",i_const_hermite_mat_init},
#endif
#if defined(W_C22) || defined(W_ALL)
{"perlin_vec2",i_perlin_vec2},
{"perlin_vec3",i_perlin_vec3},
{"perlin_vec4",i_perlin_vec4},
#endif
#if (defined(W_C01) || defined(W_ALL)) && !defined(__cplusplus)
{"const_vec2_one",i_const_vec2_one},
{"const_vec2_zero",i_const_vec2_zero},
{"const_vec3_one",i_const_vec3_one},
{"const_vec3_zero",i_const_vec3_zero},
{"const_vec4_one",i_const_vec4_one},
{"const_vec4_zero",i_const_vec4_zero},
{"const_vec4_black",i_const_vec4_black},
#endif
#if (defined(W_C02) || defined(W_ALL)) && !defined(__cplusplus)
{"const_ivec2_one",i_const_ivec2_one},
{"const_ivec2_zero",i_const_ivec2_zero},
{"const_ivec3_one",i_const_ivec3_one},
{"const_ivec3_zero",i_const_ivec3_zero},
{"const_ivec4_one",i_const_ivec4_one},
{"const_ivec4_zero",i_const_ivec4_zero},
#endif
#if (defined(W_C06) || defined(W_ALL)) && !defined(__cplusplus)
{"const_mat2_zero",i_const_mat2_zero},
{"const_mat2_identity",i_const_mat2_identity},
{"const_mat3_zero",i_const_mat3_zero},
{"const_mat3_identity",i_const_mat3_identity},
{"const_mat4_zero",i_const_mat4_zero},
{"const_mat4_identity",i_const_mat4_identity},
#endif
#if (defined(W_C10) || defined(W_ALL)) && !defined(__cplusplus)
{"const_quat_identity",i_const_quat_identity},
#endif
#if (defined(W_C14) || defined(W_ALL)) && !defined(__cplusplus)
{"const_xup",i_const_xup},
{"const_yup",i_const_yup},
{"const_zup",i_const_zup},
{"const_forward",i_const_forward},
#endif
#if (defined(W_C21) || defined(W_ALL)) && !defined(__cplusplus)
{"const_bezier_mat",i_const_bezier_mat},
{"const_hermite_mat",i_const_hermite_mat},
#endif
#if defined(W_C28) || defined(W_ALL)
{"layout_vec2",i_layout_vec2},
{"layout_vec2s",i_layout_vec2s},
{"layout_vec3",i_layout_vec3},
{"layout_vec3s",i_layout_vec3s},
{"layout_vec4",i_layout_vec4},
{"layout_vec4s",i_layout_vec4s},
{"layout_ivec2",i_layout_ivec2},
{"layout_ivec2s",i_layout_ivec2s},
{"layout_ivec3",i_layout_ivec3},
{"layout_ivec3s",i_layout_ivec3s},
{"layout_ivec4",i_layout_ivec4},
{"layout_ivec4s",i_layout_ivec4s},
{"layout_versor",i_layout_versor},
{"layout_versors",i_layout_versors},
{"layout_mat2",i_layout_mat2},
{"layout_mat2s",i_layout_mat2s},
{"layout_mat3",i_layout_mat3},
{"layout_mat3s",i_layout_mat3s},
{"layout_mat4",i_layout_mat4},
{"layout_mat4s",i_layout_mat4s},
{"layout_mat2x3",i_layout_mat2x3},
{"layout_mat2x3s",i_layout_mat2x3s},
{"layout_mat2x4",i_layout_mat2x4},
{"layout_mat2x4s",i_layout_mat2x4s},
{"layout_mat3x2",i_layout_mat3x2},
{"layout_mat3x2s",i_layout_mat3x2s},
{"layout_mat3x4",i_layout_mat3x4},
{"layout_mat3x4s",i_layout_mat3x4s},
{"layout_mat4x2",i_layout_mat4x2},
{"layout_mat4x2s",i_layout_mat4x2s},
{"layout_mat4x3",i_layout_mat4x3},
{"layout_mat4x3s",i_layout_mat4x3s},
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__))
{"simd_abs",i_simd_abs},
{"simd_vhadd",i_simd_vhadd},
{"simd_min",i_simd_min},
{"simd_max",i_simd_max},
{"simd_vdot",i_simd_vdot},
{"simd_div",i_simd_div},
{"simd_hadd",i_simd_hadd},
{"simd_hmin",i_simd_hmin},
{"simd_hmax",i_simd_hmax},
{"simd_norm",i_simd_norm},
{"simd_norm2",i_simd_norm2},
{"simd_norm_one",i_simd_norm_one},
{"simd_norm_inf",i_simd_norm_inf},
{"simd_dot",i_simd_dot},
{"simd_fmadd",i_simd_fmadd},
{"simd_fnmadd",i_simd_fnmadd},
{"simd_fmsub",i_simd_fmsub},
{"simd_fnmsub",i_simd_fnmsub},
{"simd_splat_x",i_simd_splat_x},
{"simd_splat_y",i_simd_splat_y},
{"simd_splat_z",i_simd_splat_z},
{"simd_splat_w",i_simd_splat_w},
{"simd_set1",i_simd_set1},
{"simd_set1_ptr",i_simd_set1_ptr},
{"simd_set1_rval",i_simd_set1_rval},
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && !defined(CGLM_SIMD_ARM)
{"simd_vhadds",i_simd_vhadds},
{"simd_vhmin",i_simd_vhmin},
{"simd_vhmax",i_simd_vhmax},
{"simd_vdots",i_simd_vdots},
{"simd_shuff_0123",i_simd_shuff_0123},
{"simd_shuff_3210",i_simd_shuff_3210},
{"simd_shuff_2031",i_simd_shuff_2031},
{"simd_shuff_1133",i_simd_shuff_1133},
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && defined(__AVX__)
{"simd_256_fmadd",i_simd_256_fmadd},
{"simd_256_fnmadd",i_simd_256_fnmadd},
{"simd_256_fmsub",i_simd_256_fmsub},
{"simd_256_fnmsub",i_simd_256_fnmsub},
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && !defined(CGLM_SIMD_ARM) && (defined(__SSE2__)||defined(CGLM_SIMD_WASM))
{"simd_load3",i_simd_load3},
{"simd_store3",i_simd_store3},
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && defined(CGLM_SIMD_ARM)
{"simd_combine_ll",i_simd_combine_ll},
{"simd_combine_hl",i_simd_combine_hl},
{"simd_combine_hh",i_simd_combine_hh},
{"simd_swplane",i_simd_swplane},
#endif
#if (defined(W_C24) || defined(W_ALL)) && defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__)) && defined(CGLM_SIMD_ARM) && !defined(PLAIN)
{"simd_combine_lh",i_simd_combine_lh},
#endif
{0,0}};
