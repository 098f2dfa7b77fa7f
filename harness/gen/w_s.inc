#if defined(W_C01) || defined(W_ALL)
static void s_cross(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_cross(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_dot(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_dot(a0, a1); }
static void s_vec2(Call*c){ vec3s a; memset(&a,0,sizeof a); memcpy(&a,c->p[0],8); vec2s r=glms_vec2(a); memcpy(c->p[1],&r,sizeof r); }
static void s_vec2_add(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_add(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_addadd(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_addadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_adds(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_adds(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_addsub(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_addsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_clamp(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_clamp(a0, c->f[1], c->f[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_vec2_complex_conjugate(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_complex_conjugate(a0, a1); memcpy(c->p[1],&r,sizeof r); }
static void s_vec2_complex_div(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_complex_div(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_complex_mul(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_complex_mul(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_cross(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec2_cross(a0, a1); }
static void s_vec2_distance(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec2_distance(a0, a1); }
static void s_vec2_distance2(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec2_distance2(a0, a1); }
static void s_vec2_div(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_div(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_divs(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_divs(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_dot(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec2_dot(a0, a1); }
static void s_vec2_fill(Call*c){  vec2s r=glms_vec2_fill(c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_vec2_make(Call*c){  vec2s r=glms_vec2_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_vec2_maxadd(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_maxadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_maxsub(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_maxsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_maxv(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_maxv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_minadd(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_minadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_minsub(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_minsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_minv(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_minv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_mul(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_muladd(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_muladd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_muladds(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_muladds(a0, c->f[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_mulsub(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_mulsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_mulsubs(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_mulsubs(a0, c->f[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_negate(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_negate(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec2_norm(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec2_norm(a0); }
static void s_vec2_norm2(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec2_norm2(a0); }
static void s_vec2_one(Call*c){  vec2s r=glms_vec2_one(); memcpy(c->p[0],&r,sizeof r); }
static void s_vec2_pack(Call*c){ glms_vec2_pack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_vec2_scale(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_scale(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_sub(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_sub(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_subadd(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_subadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_subs(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_subs(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_subsub(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); vec2s r=glms_vec2_subsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_unpack(Call*c){ glms_vec2_unpack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_vec2_zero(Call*c){  vec2s r=glms_vec2_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_add(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_add(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_addadd(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_addadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_adds(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_adds(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_addsub(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_addsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_broadcast(Call*c){  vec3s r=glms_vec3_broadcast(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_clamp(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_clamp(a0, c->f[1], c->f[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3_cross(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_cross(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_distance(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec3_distance(a0, a1); }
static void s_vec3_distance2(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec3_distance2(a0, a1); }
static void s_vec3_div(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_div(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_divs(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_divs(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_dot(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec3_dot(a0, a1); }
static void s_vec3_fill(Call*c){  vec3s r=glms_vec3_fill(c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3_flipsign(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_flipsign(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3_hadd(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec3_hadd(a0); }
static void s_vec3_make(Call*c){  vec3s r=glms_vec3_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_maxadd(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_maxadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_maxsub(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_maxsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_maxv(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_maxv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_minadd(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_minadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_minsub(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_minsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_minv(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_minv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_mul(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_muladd(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_muladd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_muladds(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_muladds(a0, c->f[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_mulsub(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_mulsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_mulsubs(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_mulsubs(a0, c->f[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_negate(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_negate(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3_norm(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec3_norm(a0); }
static void s_vec3_norm2(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec3_norm2(a0); }
static void s_vec3_norm_inf(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec3_norm_inf(a0); }
static void s_vec3_norm_one(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec3_norm_one(a0); }
static void s_vec3_one(Call*c){  vec3s r=glms_vec3_one(); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3_pack(Call*c){ glms_vec3_pack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_vec3_scale(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_scale(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_sub(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_sub(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_subadd(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_subadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_subs(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_subs(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_subsub(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_subsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_unpack(Call*c){ glms_vec3_unpack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_vec3_zero(Call*c){  vec3s r=glms_vec3_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_vec4(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_add(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_add(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_addadd(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_addadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_adds(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_adds(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_addsub(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_addsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_broadcast(Call*c){  vec4s r=glms_vec4_broadcast(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_clamp(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_clamp(a0, c->f[1], c->f[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_vec4_copy(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_copy(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_copy3(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec4_copy3(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_cubic(Call*c){  vec4s r=glms_vec4_cubic(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_distance(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec4_distance(a0, a1); }
static void s_vec4_distance2(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec4_distance2(a0, a1); }
static void s_vec4_div(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_div(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_divs(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_divs(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_dot(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec4_dot(a0, a1); }
static void s_vec4_fill(Call*c){  vec4s r=glms_vec4_fill(c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_vec4_hadd(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec4_hadd(a0); }
static void s_vec4_make(Call*c){  vec4s r=glms_vec4_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_maxadd(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_maxadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_maxsub(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_maxsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_maxv(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_maxv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_minadd(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_minadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_minsub(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_minsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_minv(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_minv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_mul(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_muladd(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_muladd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_muladds(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_muladds(a0, c->f[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_mulsub(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_mulsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_mulsubs(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_mulsubs(a0, c->f[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_negate(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_negate(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec4_norm(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec4_norm(a0); }
static void s_vec4_norm2(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec4_norm2(a0); }
static void s_vec4_norm_inf(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec4_norm_inf(a0); }
static void s_vec4_norm_one(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec4_norm_one(a0); }
static void s_vec4_one(Call*c){  vec4s r=glms_vec4_one(); memcpy(c->p[0],&r,sizeof r); }
static void s_vec4_pack(Call*c){ glms_vec4_pack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_vec4_scale(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_scale(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_sub(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_sub(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_subadd(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_subadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_subs(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_subs(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_subsub(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_subsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_ucopy(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_ucopy(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_unpack(Call*c){ glms_vec4_unpack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_vec4_zero(Call*c){  vec4s r=glms_vec4_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_const_vec2_one_init(Call*c){ vec2s x=GLMS_VEC2_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec2_one(Call*c){ vec2s x; x=GLMS_VEC2_ONE; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec2_zero_init(Call*c){ vec2s x=GLMS_VEC2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec2_zero(Call*c){ vec2s x; x=GLMS_VEC2_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec3_one_init(Call*c){ vec3s x=GLMS_VEC3_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec3_one(Call*c){ vec3s x; x=GLMS_VEC3_ONE; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec3_zero_init(Call*c){ vec3s x=GLMS_VEC3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec3_zero(Call*c){ vec3s x; x=GLMS_VEC3_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec4_one_init(Call*c){ vec4s x=GLMS_VEC4_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec4_one(Call*c){ vec4s x; x=GLMS_VEC4_ONE; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec4_zero_init(Call*c){ vec4s x=GLMS_VEC4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec4_zero(Call*c){ vec4s x; x=GLMS_VEC4_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec4_black_init(Call*c){ vec4s x=GLMS_VEC4_BLACK_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_vec4_black(Call*c){ vec4s x; x=GLMS_VEC4_BLACK; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C02) || defined(W_ALL)
static void s_ivec2(Call*c){  ivec2s r=glms_ivec2(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ivec2_add(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s r=glms_ivec2_add(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_addadd(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_addadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_addadds(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_addadds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_adds(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s r=glms_ivec2_adds(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_addsub(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_addsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_addsubs(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_addsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_clamp(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s r=glms_ivec2_clamp(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec2_cross(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec2_cross(a0, a1); }
static void s_ivec2_distance(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_ivec2_distance(a0, a1); }
static void s_ivec2_distance2(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec2_distance2(a0, a1); }
static void s_ivec2_div(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s r=glms_ivec2_div(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_divs(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s r=glms_ivec2_divs(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_dot(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec2_dot(a0, a1); }
static void s_ivec2_fill(Call*c){  ivec2s r=glms_ivec2_fill(c->i[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec2_maxadd(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_maxadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_maxsub(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_maxsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_maxv(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s r=glms_ivec2_maxv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_minadd(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_minadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_minsub(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_minsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_minv(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s r=glms_ivec2_minv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_mod(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s r=glms_ivec2_mod(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_mul(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s r=glms_ivec2_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_muladd(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_muladd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_muladds(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_muladds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_mulsub(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_mulsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_mulsubs(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_mulsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_one(Call*c){  ivec2s r=glms_ivec2_one(); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec2_pack(Call*c){ glms_ivec2_pack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_ivec2_scale(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s r=glms_ivec2_scale(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_sub(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s r=glms_ivec2_sub(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_subadd(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_subadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_subadds(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_subadds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_subs(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s r=glms_ivec2_subs(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_subsub(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_subsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_subsubs(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a2; memcpy(&a2,c->p[2],sizeof a2); ivec2s r=glms_ivec2_subsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec2_unpack(Call*c){ glms_ivec2_unpack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_ivec2_zero(Call*c){  ivec2s r=glms_ivec2_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec3(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s r=glms_ivec3(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_ivec3_add(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s r=glms_ivec3_add(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_addadd(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_addadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_addadds(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_addadds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_adds(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s r=glms_ivec3_adds(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_addsub(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_addsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_addsubs(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_addsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_clamp(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s r=glms_ivec3_clamp(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec3_distance(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_ivec3_distance(a0, a1); }
static void s_ivec3_distance2(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec3_distance2(a0, a1); }
static void s_ivec3_div(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s r=glms_ivec3_div(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_divs(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s r=glms_ivec3_divs(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_dot(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec3_dot(a0, a1); }
static void s_ivec3_fill(Call*c){  ivec3s r=glms_ivec3_fill(c->i[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec3_maxadd(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_maxadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_maxsub(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_maxsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_maxv(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s r=glms_ivec3_maxv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_minadd(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_minadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_minsub(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_minsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_minv(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s r=glms_ivec3_minv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_mod(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s r=glms_ivec3_mod(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_mul(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s r=glms_ivec3_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_muladd(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_muladd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_muladds(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_muladds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_mulsub(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_mulsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_mulsubs(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_mulsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_norm(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_ivec3_norm(a0); }
static void s_ivec3_norm2(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_ivec3_norm2(a0); }
static void s_ivec3_one(Call*c){  ivec3s r=glms_ivec3_one(); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec3_pack(Call*c){ glms_ivec3_pack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_ivec3_scale(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s r=glms_ivec3_scale(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_sub(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s r=glms_ivec3_sub(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_subadd(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_subadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_subadds(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_subadds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_subs(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s r=glms_ivec3_subs(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_subsub(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_subsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_subsubs(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a2; memcpy(&a2,c->p[2],sizeof a2); ivec3s r=glms_ivec3_subsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec3_unpack(Call*c){ glms_ivec3_unpack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_ivec3_zero(Call*c){  ivec3s r=glms_ivec3_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec4(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s r=glms_ivec4(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_add(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s r=glms_ivec4_add(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_addadd(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_addadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_addadds(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_addadds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_adds(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s r=glms_ivec4_adds(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_addsub(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_addsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_addsubs(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_addsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_clamp(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s r=glms_ivec4_clamp(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec4_distance(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_ivec4_distance(a0, a1); }
static void s_ivec4_distance2(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec4_distance2(a0, a1); }
static void s_ivec4_maxadd(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_maxadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_maxsub(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_maxsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_maxv(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s r=glms_ivec4_maxv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_minadd(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_minadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_minsub(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_minsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_minv(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s r=glms_ivec4_minv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_mul(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s r=glms_ivec4_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_muladd(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_muladd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_muladds(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_muladds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_mulsub(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_mulsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_mulsubs(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_mulsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_one(Call*c){  ivec4s r=glms_ivec4_one(); memcpy(c->p[0],&r,sizeof r); }
static void s_ivec4_pack(Call*c){ glms_ivec4_pack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_ivec4_scale(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s r=glms_ivec4_scale(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_sub(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s r=glms_ivec4_sub(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_subadd(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_subadd(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_subadds(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_subadds(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_subs(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s r=glms_ivec4_subs(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_subsub(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a1; memcpy(&a1,c->p[1],sizeof a1); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_subsub(a0, a1, a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_subsubs(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s a2; memcpy(&a2,c->p[2],sizeof a2); ivec4s r=glms_ivec4_subsubs(a0, c->i[1], a2); memcpy(c->p[2],&r,sizeof r); }
static void s_ivec4_unpack(Call*c){ glms_ivec4_unpack(VOIDP c->p[0],VOIDP c->p[1],(size_t)c->i[2]); }
static void s_ivec4_zero(Call*c){  ivec4s r=glms_ivec4_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_const_ivec2_one_init(Call*c){ ivec2s x=GLMS_IVEC2_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec2_one(Call*c){ ivec2s x; x=GLMS_IVEC2_ONE; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec2_zero_init(Call*c){ ivec2s x=GLMS_IVEC2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec2_zero(Call*c){ ivec2s x; x=GLMS_IVEC2_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec3_one_init(Call*c){ ivec3s x=GLMS_IVEC3_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec3_one(Call*c){ ivec3s x; x=GLMS_IVEC3_ONE; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec3_zero_init(Call*c){ ivec3s x=GLMS_IVEC3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec3_zero(Call*c){ ivec3s x; x=GLMS_IVEC3_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec4_one_init(Call*c){ ivec4s x=GLMS_IVEC4_ONE_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec4_one(Call*c){ ivec4s x; x=GLMS_IVEC4_ONE; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec4_zero_init(Call*c){ ivec4s x=GLMS_IVEC4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_ivec4_zero(Call*c){ ivec4s x; x=GLMS_IVEC4_ZERO; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C02) || defined(W_C03) || defined(W_ALL)
static void s_ivec2_abs(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s r=glms_ivec2_abs(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_ivec2_eq(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_ivec2_eq(a0, c->i[1]); }
static void s_ivec2_eqv(Call*c){ ivec2s a0; memcpy(&a0,c->p[0],sizeof a0); ivec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec2_eqv(a0, a1); }
static void s_ivec3_abs(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s r=glms_ivec3_abs(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_ivec3_eq(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_ivec3_eq(a0, c->i[1]); }
static void s_ivec3_eqv(Call*c){ ivec3s a0; memcpy(&a0,c->p[0],sizeof a0); ivec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_ivec3_eqv(a0, a1); }
static void s_ivec4_abs(Call*c){ ivec4s a0; memcpy(&a0,c->p[0],sizeof a0); ivec4s r=glms_ivec4_abs(a0); memcpy(c->p[1],&r,sizeof r); }
#endif
#if defined(W_C03) || defined(W_ALL)
static void s_vec2_abs(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_abs(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec2_eq(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec2_eq(a0, c->f[1]); }
static void s_vec2_eq_all(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec2_eq_all(a0); }
static void s_vec2_eq_eps(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec2_eq_eps(a0, c->f[1]); }
static void s_vec2_eqv(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec2_eqv(a0, a1); }
static void s_vec2_eqv_eps(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec2_eqv_eps(a0, a1); }
static void s_vec2_floor(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_floor(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec2_fract(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_fract(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec2_isinf(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec2_isinf(a0); }
static void s_vec2_isnan(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec2_isnan(a0); }
static void s_vec2_isvalid(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec2_isvalid(a0); }
static void s_vec2_max(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec2_max(a0); }
static void s_vec2_min(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec2_min(a0); }
static void s_vec2_mods(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_mods(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_sign(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_sign(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec2_sqrt(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_sqrt(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_abs(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_abs(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_eq(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec3_eq(a0, c->f[1]); }
static void s_vec3_eq_all(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec3_eq_all(a0); }
static void s_vec3_eq_eps(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec3_eq_eps(a0, c->f[1]); }
static void s_vec3_eqv(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec3_eqv(a0, a1); }
static void s_vec3_eqv_eps(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec3_eqv_eps(a0, a1); }
static void s_vec3_floor(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_floor(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_fract(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_fract(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_isinf(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec3_isinf(a0); }
static void s_vec3_isnan(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec3_isnan(a0); }
static void s_vec3_isvalid(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec3_isvalid(a0); }
static void s_vec3_max(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec3_max(a0); }
static void s_vec3_min(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec3_min(a0); }
static void s_vec3_mods(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_mods(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_sign(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_sign(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_sqrt(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_sqrt(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_swizzle(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_swizzle(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_abs(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_abs(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_eq(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec4_eq(a0, c->f[1]); }
static void s_vec4_eq_all(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec4_eq_all(a0); }
static void s_vec4_eq_eps(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec4_eq_eps(a0, c->f[1]); }
static void s_vec4_eqv(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec4_eqv(a0, a1); }
static void s_vec4_eqv_eps(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec4_eqv_eps(a0, a1); }
static void s_vec4_floor(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_floor(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_fract(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_fract(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_isinf(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec4_isinf(a0); }
static void s_vec4_isnan(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec4_isnan(a0); }
static void s_vec4_isvalid(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_vec4_isvalid(a0); }
static void s_vec4_max(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec4_max(a0); }
static void s_vec4_min(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_vec4_min(a0); }
static void s_vec4_mods(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_mods(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_sign(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_sign(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_sqrt(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_sqrt(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec4_swizzle(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_swizzle(a0, c->i[1]); memcpy(c->p[2],&r,sizeof r); }
#endif
#if defined(W_C03) || defined(W_C04) || defined(W_ALL)
static void s_vec2_step(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_step(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_stepr(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_stepr(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_steps(Call*c){ vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_steps(c->f[0], a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_step(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_step(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_step_uni(Call*c){ vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_step_uni(c->f[0], a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_stepr(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_stepr(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_steps(Call*c){ vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_steps(c->f[0], a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_step(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_step(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_step_uni(Call*c){ vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_step_uni(c->f[0], a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_stepr(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_stepr(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_steps(Call*c){ vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_steps(c->f[0], a1); memcpy(c->p[2],&r,sizeof r); }
#endif
#if defined(W_C04) || defined(W_ALL)
static void s_luminance(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_luminance(a0); }
static void s_vec2_lerp(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_lerp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_lerp(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_lerp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_lerpc(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_lerpc(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_mix(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_mix(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_mixc(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_mixc(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_smoothinterp(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_smoothinterp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_smoothinterpc(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_smoothinterpc(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_smoothstep(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_smoothstep(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_smoothstep_uni(Call*c){ vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_smoothstep_uni(c->f[0], c->f[1], a2); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_lerp(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_lerp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_lerpc(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_lerpc(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_mix(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_mix(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_mixc(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_mixc(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_smoothinterp(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_smoothinterp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_smoothinterpc(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_smoothinterpc(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_smoothstep(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_smoothstep(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_vec4_smoothstep_uni(Call*c){ vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec4s r=glms_vec4_smoothstep_uni(c->f[0], c->f[1], a2); memcpy(c->p[3],&r,sizeof r); }
#endif
#if defined(W_C05) || defined(W_ALL)
static void s_normalize(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_normalize(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec2_center(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_center(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_normalize(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_normalize(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec2_reflect(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_vec2_reflect(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_refract(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec2_refract(a0, a1, c->f[2], VOIDP c->p[3]); }
static void s_vec2_rotate(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_rotate(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec2_scale_as(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s r=glms_vec2_scale_as(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_angle(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_vec3_angle(a0, a1); }
static void s_vec3_center(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_center(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_crossn(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_crossn(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_faceforward(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_faceforward(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_vec3_normalize(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_normalize(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3_ortho(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_ortho(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_vec3_proj(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_proj(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_reflect(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_reflect(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_refract(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec3_refract(a0, a1, c->f[2], VOIDP c->p[3]); }
static void s_vec3_rotate(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_vec3_rotate(a0, c->f[1], a2); memcpy(c->p[0],&r,sizeof r); }
static void s_vec3_rotate_m3(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_rotate_m3(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_rotate_m4(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_vec3_rotate_m4(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec3_scale_as(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_vec3_scale_as(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_normalize(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_normalize(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_vec4_reflect(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_vec4_reflect(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_vec4_refract(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_vec4_refract(a0, a1, c->f[2], VOIDP c->p[3]); }
static void s_vec4_scale_as(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_vec4_scale_as(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
#endif
#if defined(W_C06) || defined(W_ALL)
static void s_mat2_identity(Call*c){  mat2s r=glms_mat2_identity(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2_identity_array(Call*c){  glms_mat2_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void s_mat2_make(Call*c){  mat2s r=glms_mat2_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat2_mul(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2s a1; memcpy(&a1,c->p[1],sizeof a1); mat2s r=glms_mat2_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat2_mulv(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_mat2_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat2_rmc(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s a2; memcpy(&a2,c->p[2],sizeof a2); c->rf=glms_mat2_rmc(a0, a1, a2); }
static void s_mat2_scale(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2s r=glms_mat2_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2_swap_col(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2s r=glms_mat2_swap_col(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2_swap_row(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2s r=glms_mat2_swap_row(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2_trace(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_mat2_trace(a0); }
static void s_mat2_transpose(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2s r=glms_mat2_transpose(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2_zero(Call*c){  mat2s r=glms_mat2_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2x3_make(Call*c){  mat2x3s r=glms_mat2x3_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat2x3_mul(Call*c){ mat2x3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3x2s a1; memcpy(&a1,c->p[1],sizeof a1); mat3s r=glms_mat2x3_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat2x3_mulv(Call*c){ mat2x3s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_mat2x3_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat2x3_scale(Call*c){ mat2x3s a0; memcpy(&a0,c->p[0],sizeof a0); mat2x3s r=glms_mat2x3_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2x3_transpose(Call*c){ mat2x3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3x2s r=glms_mat2x3_transpose(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat2x3_zero(Call*c){  mat2x3s r=glms_mat2x3_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2x4_make(Call*c){  mat2x4s r=glms_mat2x4_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat2x4_mul(Call*c){ mat2x4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4x2s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_mat2x4_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat2x4_mulv(Call*c){ mat2x4s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_mat2x4_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat2x4_scale(Call*c){ mat2x4s a0; memcpy(&a0,c->p[0],sizeof a0); mat2x4s r=glms_mat2x4_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat2x4_transpose(Call*c){ mat2x4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4x2s r=glms_mat2x4_transpose(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat2x4_zero(Call*c){  mat2x4s r=glms_mat2x4_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3_copy(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat3_copy(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat3_identity(Call*c){  mat3s r=glms_mat3_identity(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3_identity_array(Call*c){  glms_mat3_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void s_mat3_make(Call*c){  mat3s r=glms_mat3_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat3_mul(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s a1; memcpy(&a1,c->p[1],sizeof a1); mat3s r=glms_mat3_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat3_mulv(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_mat3_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat3_rmc(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); c->rf=glms_mat3_rmc(a0, a1, a2); }
static void s_mat3_scale(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat3_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3_swap_col(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat3_swap_col(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3_swap_row(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat3_swap_row(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3_trace(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_mat3_trace(a0); }
static void s_mat3_transpose(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat3_transpose(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3_zero(Call*c){  mat3s r=glms_mat3_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3x2_make(Call*c){  mat3x2s r=glms_mat3x2_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat3x2_mul(Call*c){ mat3x2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2x3s a1; memcpy(&a1,c->p[1],sizeof a1); mat2s r=glms_mat3x2_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat3x2_mulv(Call*c){ mat3x2s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_mat3x2_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat3x2_scale(Call*c){ mat3x2s a0; memcpy(&a0,c->p[0],sizeof a0); mat3x2s r=glms_mat3x2_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3x2_transpose(Call*c){ mat3x2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2x3s r=glms_mat3x2_transpose(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat3x2_zero(Call*c){  mat3x2s r=glms_mat3x2_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3x4_make(Call*c){  mat3x4s r=glms_mat3x4_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat3x4_mul(Call*c){ mat3x4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4x3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_mat3x4_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat3x4_mulv(Call*c){ mat3x4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_mat3x4_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat3x4_scale(Call*c){ mat3x4s a0; memcpy(&a0,c->p[0],sizeof a0); mat3x4s r=glms_mat3x4_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat3x4_transpose(Call*c){ mat3x4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4x3s r=glms_mat3x4_transpose(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat3x4_zero(Call*c){  mat3x4s r=glms_mat3x4_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4_copy(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_copy(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_identity(Call*c){  mat4s r=glms_mat4_identity(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4_identity_array(Call*c){  glms_mat4_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void s_mat4_ins3(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_mat4_ins3(a0, a1); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_make(Call*c){  mat4s r=glms_mat4_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_mul(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_mat4_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat4_mulN(Call*c){ mat4s v[8]; mat4s*ms[8]; for(int k=0;k<c->i[1];k++){ memcpy(&v[k],(float*)c->p[0]+16*(k&3),sizeof v[k]); ms[k]=&v[k]; } mat4s r=glms_mat4_mulN(ms,(uint32_t)c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_mat4_mulv(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_mat4_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat4_mulv3(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_mat4_mulv3(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_mat4_pick3(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat4_pick3(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_pick3t(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat4_pick3t(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_rmc(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); c->rf=glms_mat4_rmc(a0, a1, a2); }
static void s_mat4_scale(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4_scale_p(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_scale_p(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4_swap_col(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_swap_col(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4_swap_row(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_swap_row(a0, c->i[1], c->i[2]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4_trace(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_mat4_trace(a0); }
static void s_mat4_trace3(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_mat4_trace3(a0); }
static void s_mat4_transpose(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_transpose(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4_ucopy(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_ucopy(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_zero(Call*c){  mat4s r=glms_mat4_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4x2_make(Call*c){  mat4x2s r=glms_mat4x2_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4x2_mul(Call*c){ mat4x2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2x4s a1; memcpy(&a1,c->p[1],sizeof a1); mat2s r=glms_mat4x2_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat4x2_mulv(Call*c){ mat4x2s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec2s r=glms_mat4x2_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat4x2_scale(Call*c){ mat4x2s a0; memcpy(&a0,c->p[0],sizeof a0); mat4x2s r=glms_mat4x2_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4x2_transpose(Call*c){ mat4x2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2x4s r=glms_mat4x2_transpose(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4x2_zero(Call*c){  mat4x2s r=glms_mat4x2_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4x3_make(Call*c){  mat4x3s r=glms_mat4x3_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4x3_mul(Call*c){ mat4x3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3x4s a1; memcpy(&a1,c->p[1],sizeof a1); mat3s r=glms_mat4x3_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat4x3_mulv(Call*c){ mat4x3s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_mat4x3_mulv(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mat4x3_scale(Call*c){ mat4x3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4x3s r=glms_mat4x3_scale(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_mat4x3_transpose(Call*c){ mat4x3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3x4s r=glms_mat4x3_transpose(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4x3_zero(Call*c){  mat4x3s r=glms_mat4x3_zero(); memcpy(c->p[0],&r,sizeof r); }
static void s_const_mat2_zero_init(Call*c){ mat2s x=GLMS_MAT2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat2_zero(Call*c){ mat2s x; x=GLMS_MAT2_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat2_identity_init(Call*c){ mat2s x=GLMS_MAT2_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat2_identity(Call*c){ mat2s x; x=GLMS_MAT2_IDENTITY; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat2x3_zero_init(Call*c){ mat2x3s x=GLMS_MAT2X3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat2x3_zero(Call*c){ mat2x3s x=GLMS_MAT2X3_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat2x4_zero_init(Call*c){ mat2x4s x=GLMS_MAT2X4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat2x4_zero(Call*c){ mat2x4s x=GLMS_MAT2X4_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3x2_zero_init(Call*c){ mat3x2s x=GLMS_MAT3X2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3x2_zero(Call*c){ mat3x2s x=GLMS_MAT3X2_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3_zero_init(Call*c){ mat3s x=GLMS_MAT3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3_zero(Call*c){ mat3s x; x=GLMS_MAT3_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3_identity_init(Call*c){ mat3s x=GLMS_MAT3_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3_identity(Call*c){ mat3s x; x=GLMS_MAT3_IDENTITY; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3x4_zero_init(Call*c){ mat3x4s x=GLMS_MAT3X4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat3x4_zero(Call*c){ mat3x4s x=GLMS_MAT3X4_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4x2_zero_init(Call*c){ mat4x2s x=GLMS_MAT4X2_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4x2_zero(Call*c){ mat4x2s x=GLMS_MAT4X2_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4x3_zero_init(Call*c){ mat4x3s x=GLMS_MAT4X3_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4x3_zero(Call*c){ mat4x3s x=GLMS_MAT4X3_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4_zero_init(Call*c){ mat4s x=GLMS_MAT4_ZERO_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4_zero(Call*c){ mat4s x; x=GLMS_MAT4_ZERO; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4_identity_init(Call*c){ mat4s x=GLMS_MAT4_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_mat4_identity(Call*c){ mat4s x; x=GLMS_MAT4_IDENTITY; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C07) || defined(W_ALL)
static void s_mat2_det(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_mat2_det(a0); }
static void s_mat2_inv(Call*c){ mat2s a0; memcpy(&a0,c->p[0],sizeof a0); mat2s r=glms_mat2_inv(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat3_det(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_mat3_det(a0); }
static void s_mat3_inv(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_mat3_inv(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_det(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_mat4_det(a0); }
static void s_mat4_inv(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_inv(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_inv_fast(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_mat4_inv_fast(a0); memcpy(c->p[1],&r,sizeof r); }
#endif
#if defined(W_C08) || defined(W_ALL)
static void s_decompose(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_decompose(a0, VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void s_decompose_rs(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_decompose_rs(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_decompose_scalev(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_decompose_scalev(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_inv_tr(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_inv_tr(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_mul(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_mul_rot(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_mul_rot(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_rotate(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_rotate(a0, c->f[1], a2); memcpy(c->p[0],&r,sizeof r); }
static void s_rotate_at(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a3; memcpy(&a3,c->p[3],sizeof a3); mat4s r=glms_rotate_at(a0, a1, c->f[2], a3); memcpy(c->p[0],&r,sizeof r); }
static void s_rotate_atm(Call*c){ vec3s a0; memcpy(&a0,c->p[1],sizeof a0); vec3s a2; memcpy(&a2,c->p[3],sizeof a2); mat4s r=glms_rotate_atm(a0, c->f[2], a2); memcpy(c->p[0],&r,sizeof r); }
static void s_rotate_make(Call*c){ vec3s a1; memcpy(&a1,c->p[2],sizeof a1); mat4s r=glms_rotate_make(c->f[1], a1); memcpy(c->p[0],&r,sizeof r); }
static void s_rotate_x(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_rotate_x(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_rotate_y(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_rotate_y(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_rotate_z(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_rotate_z(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_rotated(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_rotated(a0, c->f[1], a2); memcpy(c->p[0],&r,sizeof r); }
static void s_rotated_at(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a3; memcpy(&a3,c->p[3],sizeof a3); mat4s r=glms_rotated_at(a0, a1, c->f[2], a3); memcpy(c->p[0],&r,sizeof r); }
static void s_rotated_x(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_rotated_x(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_rotated_y(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_rotated_y(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_rotated_z(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_rotated_z(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_scale(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_scale(a0, a1); memcpy(c->p[0],&r,sizeof r); }
static void s_scale_make(Call*c){ vec3s a0; memcpy(&a0,c->p[1],sizeof a0); mat4s r=glms_scale_make(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_scale_uni(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_scale_uni(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_spin(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_spin(a0, c->f[1], a2); memcpy(c->p[0],&r,sizeof r); }
static void s_spinned(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_spinned(a0, c->f[1], a2); memcpy(c->p[0],&r,sizeof r); }
static void s_translate(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_translate(a0, a1); memcpy(c->p[0],&r,sizeof r); }
static void s_translate_make(Call*c){ vec3s a0; memcpy(&a0,c->p[1],sizeof a0); mat4s r=glms_translate_make(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_translate_x(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_translate_x(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_translate_y(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_translate_y(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_translate_z(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_translate_z(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_translated(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_translated(a0, a1); memcpy(c->p[0],&r,sizeof r); }
static void s_translated_x(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_translated_x(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_translated_y(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_translated_y(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_translated_z(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_translated_z(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_uniscaled(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->ri=(int)glms_uniscaled(a0); }
#endif
#if defined(W_C09) || defined(W_ALL)
static void s_mat3_textrans(Call*c){  mat3s r=glms_mat3_textrans(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); memcpy(c->p[5],&r,sizeof r); }
static void s_mat4_textrans(Call*c){  mat4s r=glms_mat4_textrans(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4]); memcpy(c->p[5],&r,sizeof r); }
static void s_rotate2d(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_rotate2d(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_rotate2d_make(Call*c){  mat3s r=glms_rotate2d_make(c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_rotate2d_to(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_rotate2d_to(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_scale2d(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); mat3s r=glms_scale2d(a0, a1); memcpy(c->p[0],&r,sizeof r); }
static void s_scale2d_make(Call*c){ vec2s a0; memcpy(&a0,c->p[1],sizeof a0); mat3s r=glms_scale2d_make(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_scale2d_uni(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_scale2d_uni(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_translate2d(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); vec2s a1; memcpy(&a1,c->p[1],sizeof a1); mat3s r=glms_translate2d(a0, a1); memcpy(c->p[0],&r,sizeof r); }
static void s_translate2d_make(Call*c){ vec2s a0; memcpy(&a0,c->p[1],sizeof a0); mat3s r=glms_translate2d_make(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_translate2d_x(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_translate2d_x(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_translate2d_y(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_translate2d_y(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
#endif
#if defined(W_C10) || defined(W_ALL)
static void s_quat(Call*c){  versors r=glms_quat(c->f[1], c->f[2], c->f[3], c->f[4]); memcpy(c->p[0],&r,sizeof r); }
static void s_quat_add(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_add(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_quat_angle(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_quat_angle(a0); }
static void s_quat_axis(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_quat_axis(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_conjugate(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_quat_conjugate(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_dot(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_quat_dot(a0, a1); }
static void s_quat_from_vecs(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_from_vecs(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_quat_identity(Call*c){  versors r=glms_quat_identity(); memcpy(c->p[0],&r,sizeof r); }
static void s_quat_identity_array(Call*c){  glms_quat_identity_array(VOIDP c->p[0], (size_t)c->i[1]); }
static void s_quat_imaglen(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_quat_imaglen(a0); }
static void s_quat_imagn(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_quat_imagn(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_init(Call*c){  versors r=glms_quat_init(c->f[1], c->f[2], c->f[3], c->f[4]); memcpy(c->p[0],&r,sizeof r); }
static void s_quat_inv(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_quat_inv(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_make(Call*c){  versors r=glms_quat_make(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_mul(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_mul(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_quat_norm(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_quat_norm(a0); }
static void s_quat_normalize(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_quat_normalize(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_quat_sub(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_sub(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_quatv(Call*c){ vec3s a1; memcpy(&a1,c->p[2],sizeof a1); versors r=glms_quatv(c->f[1], a1); memcpy(c->p[0],&r,sizeof r); }
static void s_const_quat_identity_init(Call*c){ versors x=GLMS_QUAT_IDENTITY_INIT; memcpy(c->p[0],&x,sizeof x); }
static void s_const_quat_identity(Call*c){ versors x; x=GLMS_QUAT_IDENTITY; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C10) || defined(W_C11) || defined(W_ALL)
static void s_quat_rotatev(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_quat_rotatev(a0, a1); memcpy(c->p[2],&r,sizeof r); }
#endif
#if defined(W_C11) || defined(W_ALL)
static void s_mat3_quat(Call*c){ mat3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_mat3_quat(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_mat4_quat(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_mat4_quat(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_for(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_for(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_quat_forp(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); versors r=glms_quat_forp(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_quat_look(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_quat_look(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_quat_mat3(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_quat_mat3(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_mat3t(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); mat3s r=glms_quat_mat3t(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_mat4(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_quat_mat4(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_mat4t(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_quat_mat4t(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_quat_rotate(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_quat_rotate(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_quat_rotate_at(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_quat_rotate_at(a0, a1, a2); memcpy(c->p[0],&r,sizeof r); }
static void s_quat_rotate_atm(Call*c){ versors a0; memcpy(&a0,c->p[1],sizeof a0); vec3s a1; memcpy(&a1,c->p[2],sizeof a1); mat4s r=glms_quat_rotate_atm(a0, a1); memcpy(c->p[0],&r,sizeof r); }
#endif
#if defined(W_C12) || defined(W_ALL)
static void s_quat_lerp(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_lerp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_quat_lerpc(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_lerpc(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_quat_nlerp(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_nlerp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_quat_slerp(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_slerp(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_quat_slerp_longest(Call*c){ versors a0; memcpy(&a0,c->p[0],sizeof a0); versors a1; memcpy(&a1,c->p[1],sizeof a1); versors r=glms_quat_slerp_longest(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
#endif
#if defined(W_C13) || defined(W_ALL)
static void s_euler_angles(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s r=glms_euler_angles(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_by_order(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_euler_by_order(a0, (glm_euler_seq)c->i[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_euler_xyz(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_euler_xyz(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_xyz_quat(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_xyz_quat(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_xzy(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_euler_xzy(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_xzy_quat(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_xzy_quat(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yxz(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_euler_yxz(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yxz_quat(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_yxz_quat(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yzx(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_euler_yzx(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yzx_quat(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_yzx_quat(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zxy(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_euler_zxy(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zxy_quat(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_zxy_quat(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zyx(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_euler_zyx(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zyx_quat(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_zyx_quat(a0); memcpy(c->p[1],&r,sizeof r); }
#endif
#if (defined(W_C13) || defined(W_ALL)) && !defined(PLAIN)
static void s_euler_xyz_quat_lh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_xyz_quat_lh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_xyz_quat_rh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_xyz_quat_rh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_xzy_quat_lh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_xzy_quat_lh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_xzy_quat_rh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_xzy_quat_rh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yxz_quat_lh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_yxz_quat_lh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yxz_quat_rh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_yxz_quat_rh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yzx_quat_lh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_yzx_quat_lh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_yzx_quat_rh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_yzx_quat_rh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zxy_quat_lh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_zxy_quat_lh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zxy_quat_rh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_zxy_quat_rh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zyx_quat_lh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_zyx_quat_lh(a0); memcpy(c->p[1],&r,sizeof r); }
static void s_euler_zyx_quat_rh(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); versors r=glms_euler_zyx_quat_rh(a0); memcpy(c->p[1],&r,sizeof r); }
#endif
#if defined(W_C14) || defined(W_ALL)
static void s_look(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_look(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_look_anyup(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_look_anyup(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_lookat(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_lookat(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_const_xup(Call*c){ vec3s x; x=GLMS_XUP; memcpy(c->p[0],&x,sizeof x); }
static void s_const_yup(Call*c){ vec3s x; x=GLMS_YUP; memcpy(c->p[0],&x,sizeof x); }
static void s_const_zup(Call*c){ vec3s x; x=GLMS_ZUP; memcpy(c->p[0],&x,sizeof x); }
#endif
#if (defined(W_C14) || defined(W_ALL)) && !defined(PLAIN)
static void s_look_anyup_lh_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_look_anyup_lh_no(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_look_anyup_lh_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_look_anyup_lh_zo(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_look_anyup_rh_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_look_anyup_rh_no(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_look_anyup_rh_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); mat4s r=glms_look_anyup_rh_zo(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_look_lh_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_look_lh_no(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_look_lh_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_look_lh_zo(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_look_rh_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_look_rh_no(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_look_rh_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_look_rh_zo(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_lookat_lh_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_lookat_lh_no(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_lookat_lh_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_lookat_lh_zo(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_lookat_rh_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_lookat_rh_no(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_lookat_rh_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); mat4s r=glms_lookat_rh_zo(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
#endif
#if defined(W_C15) || defined(W_ALL)
static void s_frustum(Call*c){  mat4s r=glms_frustum(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_ortho(Call*c){  mat4s r=glms_ortho(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_ortho_aabb(Call*c){  mat4s r=glms_ortho_aabb(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_aabb_p(Call*c){  mat4s r=glms_ortho_aabb_p(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_pz(Call*c){  mat4s r=glms_ortho_aabb_pz(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_default(Call*c){  mat4s r=glms_ortho_default(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_default_s(Call*c){  mat4s r=glms_ortho_default_s(c->f[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_perspective(Call*c){  mat4s r=glms_perspective(c->f[0], c->f[1], c->f[2], c->f[3]); memcpy(c->p[4],&r,sizeof r); }
static void s_perspective_default(Call*c){  mat4s r=glms_perspective_default(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
#endif
#if (defined(W_C15) || defined(W_ALL)) && !defined(PLAIN)
static void s_frustum_lh_no(Call*c){  mat4s r=glms_frustum_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_frustum_lh_zo(Call*c){  mat4s r=glms_frustum_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_frustum_rh_no(Call*c){  mat4s r=glms_frustum_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_frustum_rh_zo(Call*c){  mat4s r=glms_frustum_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_ortho_aabb_lh_no(Call*c){  mat4s r=glms_ortho_aabb_lh_no(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_aabb_lh_zo(Call*c){  mat4s r=glms_ortho_aabb_lh_zo(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_aabb_p_lh_no(Call*c){  mat4s r=glms_ortho_aabb_p_lh_no(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_p_lh_zo(Call*c){  mat4s r=glms_ortho_aabb_p_lh_zo(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_p_rh_no(Call*c){  mat4s r=glms_ortho_aabb_p_rh_no(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_p_rh_zo(Call*c){  mat4s r=glms_ortho_aabb_p_rh_zo(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_pz_lh_no(Call*c){  mat4s r=glms_ortho_aabb_pz_lh_no(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_pz_lh_zo(Call*c){  mat4s r=glms_ortho_aabb_pz_lh_zo(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_pz_rh_no(Call*c){  mat4s r=glms_ortho_aabb_pz_rh_no(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_pz_rh_zo(Call*c){  mat4s r=glms_ortho_aabb_pz_rh_zo(VOIDP c->p[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_aabb_rh_no(Call*c){  mat4s r=glms_ortho_aabb_rh_no(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_aabb_rh_zo(Call*c){  mat4s r=glms_ortho_aabb_rh_zo(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_default_lh_no(Call*c){  mat4s r=glms_ortho_default_lh_no(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_default_lh_zo(Call*c){  mat4s r=glms_ortho_default_lh_zo(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_default_rh_no(Call*c){  mat4s r=glms_ortho_default_rh_no(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_default_rh_zo(Call*c){  mat4s r=glms_ortho_default_rh_zo(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_ortho_default_s_lh_no(Call*c){  mat4s r=glms_ortho_default_s_lh_no(c->f[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_default_s_lh_zo(Call*c){  mat4s r=glms_ortho_default_s_lh_zo(c->f[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_default_s_rh_no(Call*c){  mat4s r=glms_ortho_default_s_rh_no(c->f[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_default_s_rh_zo(Call*c){  mat4s r=glms_ortho_default_s_rh_zo(c->f[0], c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_ortho_lh_no(Call*c){  mat4s r=glms_ortho_lh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_ortho_lh_zo(Call*c){  mat4s r=glms_ortho_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_ortho_rh_no(Call*c){  mat4s r=glms_ortho_rh_no(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_ortho_rh_zo(Call*c){  mat4s r=glms_ortho_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3], c->f[4], c->f[5]); memcpy(c->p[6],&r,sizeof r); }
static void s_perspective_default_lh_no(Call*c){  mat4s r=glms_perspective_default_lh_no(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_perspective_default_lh_zo(Call*c){  mat4s r=glms_perspective_default_lh_zo(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_perspective_default_rh_no(Call*c){  mat4s r=glms_perspective_default_rh_no(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_perspective_default_rh_zo(Call*c){  mat4s r=glms_perspective_default_rh_zo(c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_perspective_lh_no(Call*c){  mat4s r=glms_perspective_lh_no(c->f[0], c->f[1], c->f[2], c->f[3]); memcpy(c->p[4],&r,sizeof r); }
static void s_perspective_lh_zo(Call*c){  mat4s r=glms_perspective_lh_zo(c->f[0], c->f[1], c->f[2], c->f[3]); memcpy(c->p[4],&r,sizeof r); }
static void s_perspective_rh_no(Call*c){  mat4s r=glms_perspective_rh_no(c->f[0], c->f[1], c->f[2], c->f[3]); memcpy(c->p[4],&r,sizeof r); }
static void s_perspective_rh_zo(Call*c){  mat4s r=glms_perspective_rh_zo(c->f[0], c->f[1], c->f[2], c->f[3]); memcpy(c->p[4],&r,sizeof r); }
#endif
#if defined(W_C15) || defined(W_C16) || defined(W_ALL)
static void s_perspective_resize(Call*c){ mat4s a; memcpy(&a,c->p[1],sizeof a); mat4s r=glms_perspective_resize(a,c->f[0]); memcpy(c->p[1],&r,sizeof r); }
#endif
#if (defined(W_C15) || defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
static void s_perspective_resize_lh_no(Call*c){ mat4s a; memcpy(&a,c->p[1],sizeof a); mat4s r=glms_perspective_resize_lh_no(a,c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_perspective_resize_lh_zo(Call*c){ mat4s a; memcpy(&a,c->p[1],sizeof a); mat4s r=glms_perspective_resize_lh_zo(a,c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_perspective_resize_rh_no(Call*c){ mat4s a; memcpy(&a,c->p[1],sizeof a); mat4s r=glms_perspective_resize_rh_no(a,c->f[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_perspective_resize_rh_zo(Call*c){ mat4s a; memcpy(&a,c->p[1],sizeof a); mat4s r=glms_perspective_resize_rh_zo(a,c->f[0]); memcpy(c->p[1],&r,sizeof r); }
#endif
#if defined(W_C16) || defined(W_ALL)
static void s_persp_aspect(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_aspect(a0); }
static void s_persp_decomp(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp(a0, VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void s_persp_decomp_far(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_far(a0, VOIDP c->p[1]); }
static void s_persp_decomp_near(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_near(a0, VOIDP c->p[1]); }
static void s_persp_decomp_x(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_x(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_y(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_y(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_z(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_z(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decompv(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decompv(a0, VOIDP c->p[1]); }
static void s_persp_fovy(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_fovy(a0); }
static void s_persp_move_far(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_persp_move_far(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_persp_sizes(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_persp_sizes(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
#endif
#if (defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
static void s_persp_aspect_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_aspect_lh_no(a0); }
static void s_persp_aspect_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_aspect_lh_zo(a0); }
static void s_persp_aspect_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_aspect_rh_no(a0); }
static void s_persp_aspect_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_aspect_rh_zo(a0); }
static void s_persp_decomp_far_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_far_lh_no(a0, VOIDP c->p[1]); }
static void s_persp_decomp_far_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_far_lh_zo(a0, VOIDP c->p[1]); }
static void s_persp_decomp_far_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_far_rh_no(a0, VOIDP c->p[1]); }
static void s_persp_decomp_far_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_far_rh_zo(a0, VOIDP c->p[1]); }
static void s_persp_decomp_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_lh_no(a0, VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void s_persp_decomp_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_lh_zo(a0, VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void s_persp_decomp_near_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_near_lh_no(a0, VOIDP c->p[1]); }
static void s_persp_decomp_near_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_near_lh_zo(a0, VOIDP c->p[1]); }
static void s_persp_decomp_near_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_near_rh_no(a0, VOIDP c->p[1]); }
static void s_persp_decomp_near_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_near_rh_zo(a0, VOIDP c->p[1]); }
static void s_persp_decomp_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_rh_no(a0, VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void s_persp_decomp_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_rh_zo(a0, VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3], VOIDP c->p[4], VOIDP c->p[5], VOIDP c->p[6]); }
static void s_persp_decomp_x_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_x_lh_no(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_x_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_x_lh_zo(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_x_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_x_rh_no(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_x_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_x_rh_zo(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_y_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_y_lh_no(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_y_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_y_lh_zo(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_y_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_y_rh_no(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_y_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_y_rh_zo(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_z_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_z_lh_no(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_z_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_z_lh_zo(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_z_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_z_rh_no(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decomp_z_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decomp_z_rh_zo(a0, VOIDP c->p[1], VOIDP c->p[2]); }
static void s_persp_decompv_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decompv_lh_no(a0, VOIDP c->p[1]); }
static void s_persp_decompv_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decompv_lh_zo(a0, VOIDP c->p[1]); }
static void s_persp_decompv_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decompv_rh_no(a0, VOIDP c->p[1]); }
static void s_persp_decompv_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_persp_decompv_rh_zo(a0, VOIDP c->p[1]); }
static void s_persp_fovy_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_fovy_lh_no(a0); }
static void s_persp_fovy_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_fovy_lh_zo(a0); }
static void s_persp_fovy_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_fovy_rh_no(a0); }
static void s_persp_fovy_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_persp_fovy_rh_zo(a0); }
static void s_persp_move_far_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_persp_move_far_lh_no(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_persp_move_far_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_persp_move_far_lh_zo(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_persp_move_far_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_persp_move_far_rh_no(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_persp_move_far_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s r=glms_persp_move_far_rh_zo(a0, c->f[1]); memcpy(c->p[0],&r,sizeof r); }
static void s_persp_sizes_lh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_persp_sizes_lh_no(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_persp_sizes_lh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_persp_sizes_lh_zo(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_persp_sizes_rh_no(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_persp_sizes_rh_no(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
static void s_persp_sizes_rh_zo(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_persp_sizes_rh_zo(a0, c->f[1]); memcpy(c->p[2],&r,sizeof r); }
#endif
#if defined(W_C17) || defined(W_ALL)
static void s_pickmatrix(Call*c){ vec2s a, b; vec4s v; memcpy(&a,c->p[0],sizeof a); memcpy(&b,c->p[1],sizeof b); memcpy(&v,c->p[2],sizeof v); if(!(b.raw[0]>0&&b.raw[1]>0)) return; mat4s r=glms_pickmatrix(a,b,v); memcpy(c->p[3],&r,sizeof r); }
static void s_project(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_project(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_project_z(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_project_z(a0, a1); }
static void s_unproject(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_unproject(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_unprojecti(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_unprojecti(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
#endif
#if (defined(W_C17) || defined(W_ALL)) && !defined(PLAIN)
static void s_project_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_project_no(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_project_z_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_project_z_no(a0, a1); }
static void s_project_z_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); c->rf=glms_project_z_zo(a0, a1); }
static void s_project_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_project_zo(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_unprojecti_no(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_unprojecti_no(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
static void s_unprojecti_zo(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s r=glms_unprojecti_zo(a0, a1, a2); memcpy(c->p[3],&r,sizeof r); }
#endif
#if defined(W_C18) || defined(W_ALL)
static void s_aabb_frustum(Call*c){  c->ri=(int)glms_aabb_frustum(VOIDP c->p[0], VOIDP c->p[1]); }
static void s_frustum_box(Call*c){ mat4s a1; memcpy(&a1,c->p[1],sizeof a1); glms_frustum_box(VOIDP c->p[0], a1, VOIDP c->p[2]); }
static void s_frustum_center(Call*c){  vec4s r=glms_frustum_center(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_frustum_corners(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_frustum_corners(a0, VOIDP c->p[1]); }
static void s_frustum_corners_at(Call*c){  glms_frustum_corners_at(VOIDP c->p[0], c->f[1], c->f[2], VOIDP c->p[3]); }
static void s_frustum_planes(Call*c){ mat4s a0; memcpy(&a0,c->p[0],sizeof a0); glms_frustum_planes(a0, VOIDP c->p[1]); }
static void s_plane_normalize(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s r=glms_plane_normalize(a0); memcpy(c->p[0],&r,sizeof r); }
static void s_const_cscoord_lbn(Call*c){ vec4s x=GLMS_CSCOORD_LBN; memcpy(c->p[0],&x,sizeof x); }
static void s_const_cscoord_ltn(Call*c){ vec4s x=GLMS_CSCOORD_LTN; memcpy(c->p[0],&x,sizeof x); }
static void s_const_cscoord_rtn(Call*c){ vec4s x=GLMS_CSCOORD_RTN; memcpy(c->p[0],&x,sizeof x); }
static void s_const_cscoord_rbn(Call*c){ vec4s x=GLMS_CSCOORD_RBN; memcpy(c->p[0],&x,sizeof x); }
static void s_const_cscoord_lbf(Call*c){ vec4s x=GLMS_CSCOORD_LBF; memcpy(c->p[0],&x,sizeof x); }
static void s_const_cscoord_ltf(Call*c){ vec4s x=GLMS_CSCOORD_LTF; memcpy(c->p[0],&x,sizeof x); }
static void s_const_cscoord_rtf(Call*c){ vec4s x=GLMS_CSCOORD_RTF; memcpy(c->p[0],&x,sizeof x); }
static void s_const_cscoord_rbf(Call*c){ vec4s x=GLMS_CSCOORD_RBF; memcpy(c->p[0],&x,sizeof x); }
#endif
#if defined(W_C19) || defined(W_ALL)
static void s_aabb2d_aabb(Call*c){  c->ri=(int)glms_aabb2d_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void s_aabb2d_center(Call*c){  vec2s r=glms_aabb2d_center(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_aabb2d_circle(Call*c){ vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_aabb2d_circle(VOIDP c->p[0], a1); }
static void s_aabb2d_contains(Call*c){  c->ri=(int)glms_aabb2d_contains(VOIDP c->p[0], VOIDP c->p[1]); }
static void s_aabb2d_crop(Call*c){  glms_aabb2d_crop(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void s_aabb2d_crop_until(Call*c){  glms_aabb2d_crop_until(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void s_aabb2d_diag(Call*c){  c->rf=glms_aabb2d_diag(VOIDP c->p[0]); }
static void s_aabb2d_invalidate(Call*c){  glms_aabb2d_invalidate(VOIDP c->p[0]); }
static void s_aabb2d_isvalid(Call*c){  c->ri=(int)glms_aabb2d_isvalid(VOIDP c->p[0]); }
static void s_aabb2d_merge(Call*c){  glms_aabb2d_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void s_aabb2d_point(Call*c){ vec2s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_aabb2d_point(VOIDP c->p[0], a1); }
static void s_aabb2d_radius(Call*c){  c->rf=glms_aabb2d_radius(VOIDP c->p[0]); }
static void s_aabb2d_sizev(Call*c){  vec2s r=glms_aabb2d_sizev(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_aabb2d_transform(Call*c){ mat3s a1; memcpy(&a1,c->p[1],sizeof a1); glms_aabb2d_transform(VOIDP c->p[0], a1, VOIDP c->p[2]); }
static void s_aabb_aabb(Call*c){  c->ri=(int)glms_aabb_aabb(VOIDP c->p[0], VOIDP c->p[1]); }
static void s_aabb_center(Call*c){  vec3s r=glms_aabb_center(VOIDP c->p[0]); memcpy(c->p[1],&r,sizeof r); }
static void s_aabb_contains(Call*c){  c->ri=(int)glms_aabb_contains(VOIDP c->p[0], VOIDP c->p[1]); }
static void s_aabb_crop(Call*c){  glms_aabb_crop(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void s_aabb_crop_until(Call*c){  glms_aabb_crop_until(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2], VOIDP c->p[3]); }
static void s_aabb_invalidate(Call*c){  glms_aabb_invalidate(VOIDP c->p[0]); }
static void s_aabb_isvalid(Call*c){  c->ri=(int)glms_aabb_isvalid(VOIDP c->p[0]); }
static void s_aabb_merge(Call*c){  glms_aabb_merge(VOIDP c->p[0], VOIDP c->p[1], VOIDP c->p[2]); }
static void s_aabb_point(Call*c){ vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_aabb_point(VOIDP c->p[0], a1); }
static void s_aabb_radius(Call*c){  c->rf=glms_aabb_radius(VOIDP c->p[0]); }
static void s_aabb_size(Call*c){  c->rf=glms_aabb_size(VOIDP c->p[0]); }
static void s_aabb_sphere(Call*c){ vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_aabb_sphere(VOIDP c->p[0], a1); }
static void s_aabb_transform(Call*c){ mat4s a1; memcpy(&a1,c->p[1],sizeof a1); glms_aabb_transform(VOIDP c->p[0], a1, VOIDP c->p[2]); }
#endif
#if defined(W_C20) || defined(W_ALL)
static void s_ray_at(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s r=glms_ray_at(a0, a1, c->f[2]); memcpy(c->p[3],&r,sizeof r); }
static void s_ray_sphere(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); c->ri=(int)glms_ray_sphere(a0, a1, a2, VOIDP c->p[3], VOIDP c->p[4]); }
static void s_ray_triangle(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); vec3s a2; memcpy(&a2,c->p[2],sizeof a2); vec3s a3; memcpy(&a3,c->p[3],sizeof a3); vec3s a4; memcpy(&a4,c->p[4],sizeof a4); c->ri=(int)glms_ray_triangle(a0, a1, a2, a3, a4, VOIDP c->p[5]); }
static void s_sphere_merge(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_sphere_merge(a0, a1); memcpy(c->p[2],&r,sizeof r); }
static void s_sphere_point(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec3s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_sphere_point(a0, a1); }
static void s_sphere_radii(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_sphere_radii(a0); }
static void s_sphere_sphere(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); vec4s a1; memcpy(&a1,c->p[1],sizeof a1); c->ri=(int)glms_sphere_sphere(a0, a1); }
static void s_sphere_transform(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s r=glms_sphere_transform(a0, a1); memcpy(c->p[2],&r,sizeof r); }
#endif
#if defined(W_C21) || defined(W_ALL)
static void s_smc(Call*c){ mat4s a1; memcpy(&a1,c->p[1],sizeof a1); vec4s a2; memcpy(&a2,c->p[2],sizeof a2); c->rf=glms_smc(c->f[0], a1, a2); }
#endif
#if defined(W_C22) || defined(W_ALL)
static void s_perlin_vec2(Call*c){ vec2s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_perlin_vec2(a0); }
static void s_perlin_vec3(Call*c){ vec3s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_perlin_vec3(a0); }
static void s_perlin_vec4(Call*c){ vec4s a0; memcpy(&a0,c->p[0],sizeof a0); c->rf=glms_perlin_vec4(a0); }
#endif
#if defined(W_C23) || defined(W_C28) || defined(W_ALL)
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_vec2s(Call*c){ vec2s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.x; d[1]=x.y; d[2]=x.r; d[3]=x.i; d[4]=x.u; d[5]=x.v; d[6]=x.s; d[7]=x.t; }
#else
#define s_read_vec2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_vec2s(Call*c){ float *v=c->p[0], *d=c->p[1]; { vec2s x; x.x=v[0]; x.y=v[1]; memcpy(d+0,&x,sizeof x); } { vec2s x; x.r=v[2]; x.i=v[3]; memcpy(d+2,&x,sizeof x); } { vec2s x; x.u=v[4]; x.v=v[5]; memcpy(d+4,&x,sizeof x); } { vec2s x; x.s=v[6]; x.t=v[7]; memcpy(d+6,&x,sizeof x); } }
#else
#define s_write_vec2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_vec3s(Call*c){ vec3s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.x; d[1]=x.y; d[2]=x.z; d[3]=x.r; d[4]=x.g; d[5]=x.b; }
#else
#define s_read_vec3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_vec3s(Call*c){ float *v=c->p[0], *d=c->p[1]; { vec3s x; x.x=v[0]; x.y=v[1]; x.z=v[2]; memcpy(d+0,&x,sizeof x); } { vec3s x; x.r=v[3]; x.g=v[4]; x.b=v[5]; memcpy(d+3,&x,sizeof x); } }
#else
#define s_write_vec3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_vec4s(Call*c){ vec4s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.x; d[1]=x.y; d[2]=x.z; d[3]=x.w; d[4]=x.r; d[5]=x.g; d[6]=x.b; d[7]=x.a; }
#else
#define s_read_vec4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_vec4s(Call*c){ float *v=c->p[0], *d=c->p[1]; { vec4s x; x.x=v[0]; x.y=v[1]; x.z=v[2]; x.w=v[3]; memcpy(d+0,&x,sizeof x); } { vec4s x; x.r=v[4]; x.g=v[5]; x.b=v[6]; x.a=v[7]; memcpy(d+4,&x,sizeof x); } }
#else
#define s_write_vec4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_versors(Call*c){ versors x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.x; d[1]=x.y; d[2]=x.z; d[3]=x.w; d[4]=x.imag.x; d[5]=x.imag.y; d[6]=x.imag.z; d[7]=x.real; }
#else
#define s_read_versors 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_versors(Call*c){ float *v=c->p[0], *d=c->p[1]; { versors x; x.x=v[0]; x.y=v[1]; x.z=v[2]; x.w=v[3]; memcpy(d+0,&x,sizeof x); } { versors x; x.imag.x=v[4]; x.imag.y=v[5]; x.imag.z=v[6]; x.real=v[7]; memcpy(d+4,&x,sizeof x); } }
#else
#define s_write_versors 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_ivec2s(Call*c){ ivec2s x; memcpy(&x,c->p[0],sizeof x); int *d=c->p[1]; d[0]=x.x; d[1]=x.y; d[2]=x.r; d[3]=x.i; d[4]=x.u; d[5]=x.v; d[6]=x.s; d[7]=x.t; }
#else
#define s_read_ivec2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_ivec2s(Call*c){ int *v=c->p[0], *d=c->p[1]; { ivec2s x; x.x=v[0]; x.y=v[1]; memcpy(d+0,&x,sizeof x); } { ivec2s x; x.r=v[2]; x.i=v[3]; memcpy(d+2,&x,sizeof x); } { ivec2s x; x.u=v[4]; x.v=v[5]; memcpy(d+4,&x,sizeof x); } { ivec2s x; x.s=v[6]; x.t=v[7]; memcpy(d+6,&x,sizeof x); } }
#else
#define s_write_ivec2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_ivec3s(Call*c){ ivec3s x; memcpy(&x,c->p[0],sizeof x); int *d=c->p[1]; d[0]=x.x; d[1]=x.y; d[2]=x.z; d[3]=x.r; d[4]=x.g; d[5]=x.b; }
#else
#define s_read_ivec3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_ivec3s(Call*c){ int *v=c->p[0], *d=c->p[1]; { ivec3s x; x.x=v[0]; x.y=v[1]; x.z=v[2]; memcpy(d+0,&x,sizeof x); } { ivec3s x; x.r=v[3]; x.g=v[4]; x.b=v[5]; memcpy(d+3,&x,sizeof x); } }
#else
#define s_write_ivec3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_ivec4s(Call*c){ ivec4s x; memcpy(&x,c->p[0],sizeof x); int *d=c->p[1]; d[0]=x.x; d[1]=x.y; d[2]=x.z; d[3]=x.w; d[4]=x.r; d[5]=x.g; d[6]=x.b; d[7]=x.a; }
#else
#define s_read_ivec4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_ivec4s(Call*c){ int *v=c->p[0], *d=c->p[1]; { ivec4s x; x.x=v[0]; x.y=v[1]; x.z=v[2]; x.w=v[3]; memcpy(d+0,&x,sizeof x); } { ivec4s x; x.r=v[4]; x.g=v[5]; x.b=v[6]; x.a=v[7]; memcpy(d+4,&x,sizeof x); } }
#else
#define s_write_ivec4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat2s(Call*c){ mat2s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m10; d[3]=x.m11; d[4]=x.col[0].raw[0]; d[5]=x.col[0].raw[1]; d[6]=x.col[1].raw[0]; d[7]=x.col[1].raw[1]; }
#else
#define s_read_mat2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat2s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat2s x; x.m00=v[0]; x.m01=v[1]; x.m10=v[2]; x.m11=v[3]; memcpy(d+0,&x,sizeof x); } { mat2s x; x.col[0].raw[0]=v[4]; x.col[0].raw[1]=v[5]; x.col[1].raw[0]=v[6]; x.col[1].raw[1]=v[7]; memcpy(d+4,&x,sizeof x); } }
#else
#define s_write_mat2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat2x3s(Call*c){ mat2x3s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m02; d[3]=x.m10; d[4]=x.m11; d[5]=x.m12; d[6]=x.col[0].raw[0]; d[7]=x.col[0].raw[1]; d[8]=x.col[0].raw[2]; d[9]=x.col[1].raw[0]; d[10]=x.col[1].raw[1]; d[11]=x.col[1].raw[2]; }
#else
#define s_read_mat2x3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat2x3s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat2x3s x; x.m00=v[0]; x.m01=v[1]; x.m02=v[2]; x.m10=v[3]; x.m11=v[4]; x.m12=v[5]; memcpy(d+0,&x,sizeof x); } { mat2x3s x; x.col[0].raw[0]=v[6]; x.col[0].raw[1]=v[7]; x.col[0].raw[2]=v[8]; x.col[1].raw[0]=v[9]; x.col[1].raw[1]=v[10]; x.col[1].raw[2]=v[11]; memcpy(d+6,&x,sizeof x); } }
#else
#define s_write_mat2x3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat2x4s(Call*c){ mat2x4s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m02; d[3]=x.m03; d[4]=x.m10; d[5]=x.m11; d[6]=x.m12; d[7]=x.m13; d[8]=x.col[0].raw[0]; d[9]=x.col[0].raw[1]; d[10]=x.col[0].raw[2]; d[11]=x.col[0].raw[3]; d[12]=x.col[1].raw[0]; d[13]=x.col[1].raw[1]; d[14]=x.col[1].raw[2]; d[15]=x.col[1].raw[3]; }
#else
#define s_read_mat2x4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat2x4s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat2x4s x; x.m00=v[0]; x.m01=v[1]; x.m02=v[2]; x.m03=v[3]; x.m10=v[4]; x.m11=v[5]; x.m12=v[6]; x.m13=v[7]; memcpy(d+0,&x,sizeof x); } { mat2x4s x; x.col[0].raw[0]=v[8]; x.col[0].raw[1]=v[9]; x.col[0].raw[2]=v[10]; x.col[0].raw[3]=v[11]; x.col[1].raw[0]=v[12]; x.col[1].raw[1]=v[13]; x.col[1].raw[2]=v[14]; x.col[1].raw[3]=v[15]; memcpy(d+8,&x,sizeof x); } }
#else
#define s_write_mat2x4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat3x2s(Call*c){ mat3x2s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m10; d[3]=x.m11; d[4]=x.m20; d[5]=x.m21; d[6]=x.col[0].raw[0]; d[7]=x.col[0].raw[1]; d[8]=x.col[1].raw[0]; d[9]=x.col[1].raw[1]; d[10]=x.col[2].raw[0]; d[11]=x.col[2].raw[1]; }
#else
#define s_read_mat3x2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat3x2s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat3x2s x; x.m00=v[0]; x.m01=v[1]; x.m10=v[2]; x.m11=v[3]; x.m20=v[4]; x.m21=v[5]; memcpy(d+0,&x,sizeof x); } { mat3x2s x; x.col[0].raw[0]=v[6]; x.col[0].raw[1]=v[7]; x.col[1].raw[0]=v[8]; x.col[1].raw[1]=v[9]; x.col[2].raw[0]=v[10]; x.col[2].raw[1]=v[11]; memcpy(d+6,&x,sizeof x); } }
#else
#define s_write_mat3x2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat3s(Call*c){ mat3s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m02; d[3]=x.m10; d[4]=x.m11; d[5]=x.m12; d[6]=x.m20; d[7]=x.m21; d[8]=x.m22; d[9]=x.col[0].raw[0]; d[10]=x.col[0].raw[1]; d[11]=x.col[0].raw[2]; d[12]=x.col[1].raw[0]; d[13]=x.col[1].raw[1]; d[14]=x.col[1].raw[2]; d[15]=x.col[2].raw[0]; d[16]=x.col[2].raw[1]; d[17]=x.col[2].raw[2]; }
#else
#define s_read_mat3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat3s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat3s x; x.m00=v[0]; x.m01=v[1]; x.m02=v[2]; x.m10=v[3]; x.m11=v[4]; x.m12=v[5]; x.m20=v[6]; x.m21=v[7]; x.m22=v[8]; memcpy(d+0,&x,sizeof x); } { mat3s x; x.col[0].raw[0]=v[9]; x.col[0].raw[1]=v[10]; x.col[0].raw[2]=v[11]; x.col[1].raw[0]=v[12]; x.col[1].raw[1]=v[13]; x.col[1].raw[2]=v[14]; x.col[2].raw[0]=v[15]; x.col[2].raw[1]=v[16]; x.col[2].raw[2]=v[17]; memcpy(d+9,&x,sizeof x); } }
#else
#define s_write_mat3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat3x4s(Call*c){ mat3x4s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m02; d[3]=x.m03; d[4]=x.m10; d[5]=x.m11; d[6]=x.m12; d[7]=x.m13; d[8]=x.m20; d[9]=x.m21; d[10]=x.m22; d[11]=x.m23; d[12]=x.col[0].raw[0]; d[13]=x.col[0].raw[1]; d[14]=x.col[0].raw[2]; d[15]=x.col[0].raw[3]; d[16]=x.col[1].raw[0]; d[17]=x.col[1].raw[1]; d[18]=x.col[1].raw[2]; d[19]=x.col[1].raw[3]; d[20]=x.col[2].raw[0]; d[21]=x.col[2].raw[1]; d[22]=x.col[2].raw[2]; d[23]=x.col[2].raw[3]; }
#else
#define s_read_mat3x4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat3x4s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat3x4s x; x.m00=v[0]; x.m01=v[1]; x.m02=v[2]; x.m03=v[3]; x.m10=v[4]; x.m11=v[5]; x.m12=v[6]; x.m13=v[7]; x.m20=v[8]; x.m21=v[9]; x.m22=v[10]; x.m23=v[11]; memcpy(d+0,&x,sizeof x); } { mat3x4s x; x.col[0].raw[0]=v[12]; x.col[0].raw[1]=v[13]; x.col[0].raw[2]=v[14]; x.col[0].raw[3]=v[15]; x.col[1].raw[0]=v[16]; x.col[1].raw[1]=v[17]; x.col[1].raw[2]=v[18]; x.col[1].raw[3]=v[19]; x.col[2].raw[0]=v[20]; x.col[2].raw[1]=v[21]; x.col[2].raw[2]=v[22]; x.col[2].raw[3]=v[23]; memcpy(d+12,&x,sizeof x); } }
#else
#define s_write_mat3x4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat4x2s(Call*c){ mat4x2s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m10; d[3]=x.m11; d[4]=x.m20; d[5]=x.m21; d[6]=x.m30; d[7]=x.m31; d[8]=x.col[0].raw[0]; d[9]=x.col[0].raw[1]; d[10]=x.col[1].raw[0]; d[11]=x.col[1].raw[1]; d[12]=x.col[2].raw[0]; d[13]=x.col[2].raw[1]; d[14]=x.col[3].raw[0]; d[15]=x.col[3].raw[1]; }
#else
#define s_read_mat4x2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat4x2s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat4x2s x; x.m00=v[0]; x.m01=v[1]; x.m10=v[2]; x.m11=v[3]; x.m20=v[4]; x.m21=v[5]; x.m30=v[6]; x.m31=v[7]; memcpy(d+0,&x,sizeof x); } { mat4x2s x; x.col[0].raw[0]=v[8]; x.col[0].raw[1]=v[9]; x.col[1].raw[0]=v[10]; x.col[1].raw[1]=v[11]; x.col[2].raw[0]=v[12]; x.col[2].raw[1]=v[13]; x.col[3].raw[0]=v[14]; x.col[3].raw[1]=v[15]; memcpy(d+8,&x,sizeof x); } }
#else
#define s_write_mat4x2s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat4x3s(Call*c){ mat4x3s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m02; d[3]=x.m10; d[4]=x.m11; d[5]=x.m12; d[6]=x.m20; d[7]=x.m21; d[8]=x.m22; d[9]=x.m30; d[10]=x.m31; d[11]=x.m32; d[12]=x.col[0].raw[0]; d[13]=x.col[0].raw[1]; d[14]=x.col[0].raw[2]; d[15]=x.col[1].raw[0]; d[16]=x.col[1].raw[1]; d[17]=x.col[1].raw[2]; d[18]=x.col[2].raw[0]; d[19]=x.col[2].raw[1]; d[20]=x.col[2].raw[2]; d[21]=x.col[3].raw[0]; d[22]=x.col[3].raw[1]; d[23]=x.col[3].raw[2]; }
#else
#define s_read_mat4x3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat4x3s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat4x3s x; x.m00=v[0]; x.m01=v[1]; x.m02=v[2]; x.m10=v[3]; x.m11=v[4]; x.m12=v[5]; x.m20=v[6]; x.m21=v[7]; x.m22=v[8]; x.m30=v[9]; x.m31=v[10]; x.m32=v[11]; memcpy(d+0,&x,sizeof x); } { mat4x3s x; x.col[0].raw[0]=v[12]; x.col[0].raw[1]=v[13]; x.col[0].raw[2]=v[14]; x.col[1].raw[0]=v[15]; x.col[1].raw[1]=v[16]; x.col[1].raw[2]=v[17]; x.col[2].raw[0]=v[18]; x.col[2].raw[1]=v[19]; x.col[2].raw[2]=v[20]; x.col[3].raw[0]=v[21]; x.col[3].raw[1]=v[22]; x.col[3].raw[2]=v[23]; memcpy(d+12,&x,sizeof x); } }
#else
#define s_write_mat4x3s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_read_mat4s(Call*c){ mat4s x; memcpy(&x,c->p[0],sizeof x); float *d=c->p[1]; d[0]=x.m00; d[1]=x.m01; d[2]=x.m02; d[3]=x.m03; d[4]=x.m10; d[5]=x.m11; d[6]=x.m12; d[7]=x.m13; d[8]=x.m20; d[9]=x.m21; d[10]=x.m22; d[11]=x.m23; d[12]=x.m30; d[13]=x.m31; d[14]=x.m32; d[15]=x.m33; d[16]=x.col[0].raw[0]; d[17]=x.col[0].raw[1]; d[18]=x.col[0].raw[2]; d[19]=x.col[0].raw[3]; d[20]=x.col[1].raw[0]; d[21]=x.col[1].raw[1]; d[22]=x.col[1].raw[2]; d[23]=x.col[1].raw[3]; d[24]=x.col[2].raw[0]; d[25]=x.col[2].raw[1]; d[26]=x.col[2].raw[2]; d[27]=x.col[2].raw[3]; d[28]=x.col[3].raw[0]; d[29]=x.col[3].raw[1]; d[30]=x.col[3].raw[2]; d[31]=x.col[3].raw[3]; }
#else
#define s_read_mat4s 0
#endif
#if CGLM_USE_ANONYMOUS_STRUCT
static void s_write_mat4s(Call*c){ float *v=c->p[0], *d=c->p[1]; { mat4s x; x.m00=v[0]; x.m01=v[1]; x.m02=v[2]; x.m03=v[3]; x.m10=v[4]; x.m11=v[5]; x.m12=v[6]; x.m13=v[7]; x.m20=v[8]; x.m21=v[9]; x.m22=v[10]; x.m23=v[11]; x.m30=v[12]; x.m31=v[13]; x.m32=v[14]; x.m33=v[15]; memcpy(d+0,&x,sizeof x); } { mat4s x; x.col[0].raw[0]=v[16]; x.col[0].raw[1]=v[17]; x.col[0].raw[2]=v[18]; x.col[0].raw[3]=v[19]; x.col[1].raw[0]=v[20]; x.col[1].raw[1]=v[21]; x.col[1].raw[2]=v[22]; x.col[1].raw[3]=v[23]; x.col[2].raw[0]=v[24]; x.col[2].raw[1]=v[25]; x.col[2].raw[2]=v[26]; x.col[2].raw[3]=v[27]; x.col[3].raw[0]=v[28]; x.col[3].raw[1]=v[29]; x.col[3].raw[2]=v[30]; x.col[3].raw[3]=v[31]; memcpy(d+16,&x,sizeof x); } }
#else
#define s_write_mat4s 0
#endif
#endif
static const WEntry table_s[]={
#if defined(W_C01) || defined(W_ALL)
{"cross",s_cross},
{"dot",s_dot},
{"vec2",s_vec2},
{"vec2_add",s_vec2_add},
{"vec2_addadd",s_vec2_addadd},
{"vec2_adds",s_vec2_adds},
{"vec2_addsub",s_vec2_addsub},
{"vec2_clamp",s_vec2_clamp},
{"vec2_complex_conjugate",s_vec2_complex_conjugate},
{"vec2_complex_div",s_vec2_complex_div},
{"vec2_complex_mul",s_vec2_complex_mul},
{"vec2_cross",s_vec2_cross},
{"vec2_distance",s_vec2_distance},
{"vec2_distance2",s_vec2_distance2},
{"vec2_div",s_vec2_div},
{"vec2_divs",s_vec2_divs},
{"vec2_dot",s_vec2_dot},
{"vec2_fill",s_vec2_fill},
{"vec2_make",s_vec2_make},
{"vec2_maxadd",s_vec2_maxadd},
{"vec2_maxsub",s_vec2_maxsub},
{"vec2_maxv",s_vec2_maxv},
{"vec2_minadd",s_vec2_minadd},
{"vec2_minsub",s_vec2_minsub},
{"vec2_minv",s_vec2_minv},
{"vec2_mul",s_vec2_mul},
{"vec2_muladd",s_vec2_muladd},
{"vec2_muladds",s_vec2_muladds},
{"vec2_mulsub",s_vec2_mulsub},
{"vec2_mulsubs",s_vec2_mulsubs},
{"vec2_negate",s_vec2_negate},
{"vec2_norm",s_vec2_norm},
{"vec2_norm2",s_vec2_norm2},
{"vec2_one",s_vec2_one},
{"vec2_pack",s_vec2_pack},
{"vec2_scale",s_vec2_scale},
{"vec2_sub",s_vec2_sub},
{"vec2_subadd",s_vec2_subadd},
{"vec2_subs",s_vec2_subs},
{"vec2_subsub",s_vec2_subsub},
{"vec2_unpack",s_vec2_unpack},
{"vec2_zero",s_vec2_zero},
{"vec3",s_vec3},
{"vec3_add",s_vec3_add},
{"vec3_addadd",s_vec3_addadd},
{"vec3_adds",s_vec3_adds},
{"vec3_addsub",s_vec3_addsub},
{"vec3_broadcast",s_vec3_broadcast},
{"vec3_clamp",s_vec3_clamp},
{"vec3_cross",s_vec3_cross},
{"vec3_distance",s_vec3_distance},
{"vec3_distance2",s_vec3_distance2},
{"vec3_div",s_vec3_div},
{"vec3_divs",s_vec3_divs},
{"vec3_dot",s_vec3_dot},
{"vec3_fill",s_vec3_fill},
{"vec3_flipsign",s_vec3_flipsign},
{"vec3_hadd",s_vec3_hadd},
{"vec3_make",s_vec3_make},
{"vec3_maxadd",s_vec3_maxadd},
{"vec3_maxsub",s_vec3_maxsub},
{"vec3_maxv",s_vec3_maxv},
{"vec3_minadd",s_vec3_minadd},
{"vec3_minsub",s_vec3_minsub},
{"vec3_minv",s_vec3_minv},
{"vec3_mul",s_vec3_mul},
{"vec3_muladd",s_vec3_muladd},
{"vec3_muladds",s_vec3_muladds},
{"vec3_mulsub",s_vec3_mulsub},
{"vec3_mulsubs",s_vec3_mulsubs},
{"vec3_negate",s_vec3_negate},
{"vec3_norm",s_vec3_norm},
{"vec3_norm2",s_vec3_norm2},
{"vec3_norm_inf",s_vec3_norm_inf},
{"vec3_norm_one",s_vec3_norm_one},
{"vec3_one",s_vec3_one},
{"vec3_pack",s_vec3_pack},
{"vec3_scale",s_vec3_scale},
{"vec3_sub",s_vec3_sub},
{"vec3_subadd",s_vec3_subadd},
{"vec3_subs",s_vec3_subs},
{"vec3_subsub",s_vec3_subsub},
{"vec3_unpack",s_vec3_unpack},
{"vec3_zero",s_vec3_zero},
{"vec4",s_vec4},
{"vec4_add",s_vec4_add},
{"vec4_addadd",s_vec4_addadd},
{"vec4_adds",s_vec4_adds},
{"vec4_addsub",s_vec4_addsub},
{"vec4_broadcast",s_vec4_broadcast},
{"vec4_clamp",s_vec4_clamp},
{"vec4_copy",s_vec4_copy},
{"vec4_copy3",s_vec4_copy3},
{"vec4_cubic",s_vec4_cubic},
{"vec4_distance",s_vec4_distance},
{"vec4_distance2",s_vec4_distance2},
{"vec4_div",s_vec4_div},
{"vec4_divs",s_vec4_divs},
{"vec4_dot",s_vec4_dot},
{"vec4_fill",s_vec4_fill},
{"vec4_hadd",s_vec4_hadd},
{"vec4_make",s_vec4_make},
{"vec4_maxadd",s_vec4_maxadd},
{"vec4_maxsub",s_vec4_maxsub},
{"vec4_maxv",s_vec4_maxv},
{"vec4_minadd",s_vec4_minadd},
{"vec4_minsub",s_vec4_minsub},
{"vec4_minv",s_vec4_minv},
{"vec4_mul",s_vec4_mul},
{"vec4_muladd",s_vec4_muladd},
{"vec4_muladds",s_vec4_muladds},
{"vec4_mulsub",s_vec4_mulsub},
{"vec4_mulsubs",s_vec4_mulsubs},
{"vec4_negate",s_vec4_negate},
{"vec4_norm",s_vec4_norm},
{"vec4_norm2",s_vec4_norm2},
{"vec4_norm_inf",s_vec4_norm_inf},
{"vec4_norm_one",s_vec4_norm_one},
{"vec4_one",s_vec4_one},
{"vec4_pack",s_vec4_pack},
{"vec4_scale",s_vec4_scale},
{"vec4_sub",s_vec4_sub},
{"vec4_subadd",s_vec4_subadd},
{"vec4_subs",s_vec4_subs},
{"vec4_subsub",s_vec4_subsub},
{"vec4_ucopy",s_vec4_ucopy},
{"vec4_unpack",s_vec4_unpack},
{"vec4_zero",s_vec4_zero},
{"const_vec2_one_init",s_const_vec2_one_init},
{"const_vec2_one",s_const_vec2_one},
{"const_vec2_zero_init",s_const_vec2_zero_init},
{"const_vec2_zero",s_const_vec2_zero},
{"const_vec3_one_init",s_const_vec3_one_init},
{"const_vec3_one",s_const_vec3_one},
{"const_vec3_zero_init",s_const_vec3_zero_init},
{"const_vec3_zero",s_const_vec3_zero},
{"const_vec4_one_init",s_const_vec4_one_init},
{"const_vec4_one",s_const_vec4_one},
{"const_vec4_zero_init",s_const_vec4_zero_init},
{"const_vec4_zero",s_const_vec4_zero},
{"const_vec4_black_init",s_const_vec4_black_init},
{"const_vec4_black",s_const_vec4_black},
#endif
#if defined(W_C02) || defined(W_ALL)
{"ivec2",s_ivec2},
{"ivec2_add",s_ivec2_add},
{"ivec2_addadd",s_ivec2_addadd},
{"ivec2_addadds",s_ivec2_addadds},
{"ivec2_adds",s_ivec2_adds},
{"ivec2_addsub",s_ivec2_addsub},
{"ivec2_addsubs",s_ivec2_addsubs},
{"ivec2_clamp",s_ivec2_clamp},
{"ivec2_cross",s_ivec2_cross},
{"ivec2_distance",s_ivec2_distance},
{"ivec2_distance2",s_ivec2_distance2},
{"ivec2_div",s_ivec2_div},
{"ivec2_divs",s_ivec2_divs},
{"ivec2_dot",s_ivec2_dot},
{"ivec2_fill",s_ivec2_fill},
{"ivec2_maxadd",s_ivec2_maxadd},
{"ivec2_maxsub",s_ivec2_maxsub},
{"ivec2_maxv",s_ivec2_maxv},
{"ivec2_minadd",s_ivec2_minadd},
{"ivec2_minsub",s_ivec2_minsub},
{"ivec2_minv",s_ivec2_minv},
{"ivec2_mod",s_ivec2_mod},
{"ivec2_mul",s_ivec2_mul},
{"ivec2_muladd",s_ivec2_muladd},
{"ivec2_muladds",s_ivec2_muladds},
{"ivec2_mulsub",s_ivec2_mulsub},
{"ivec2_mulsubs",s_ivec2_mulsubs},
{"ivec2_one",s_ivec2_one},
{"ivec2_pack",s_ivec2_pack},
{"ivec2_scale",s_ivec2_scale},
{"ivec2_sub",s_ivec2_sub},
{"ivec2_subadd",s_ivec2_subadd},
{"ivec2_subadds",s_ivec2_subadds},
{"ivec2_subs",s_ivec2_subs},
{"ivec2_subsub",s_ivec2_subsub},
{"ivec2_subsubs",s_ivec2_subsubs},
{"ivec2_unpack",s_ivec2_unpack},
{"ivec2_zero",s_ivec2_zero},
{"ivec3",s_ivec3},
{"ivec3_add",s_ivec3_add},
{"ivec3_addadd",s_ivec3_addadd},
{"ivec3_addadds",s_ivec3_addadds},
{"ivec3_adds",s_ivec3_adds},
{"ivec3_addsub",s_ivec3_addsub},
{"ivec3_addsubs",s_ivec3_addsubs},
{"ivec3_clamp",s_ivec3_clamp},
{"ivec3_distance",s_ivec3_distance},
{"ivec3_distance2",s_ivec3_distance2},
{"ivec3_div",s_ivec3_div},
{"ivec3_divs",s_ivec3_divs},
{"ivec3_dot",s_ivec3_dot},
{"ivec3_fill",s_ivec3_fill},
{"ivec3_maxadd",s_ivec3_maxadd},
{"ivec3_maxsub",s_ivec3_maxsub},
{"ivec3_maxv",s_ivec3_maxv},
{"ivec3_minadd",s_ivec3_minadd},
{"ivec3_minsub",s_ivec3_minsub},
{"ivec3_minv",s_ivec3_minv},
{"ivec3_mod",s_ivec3_mod},
{"ivec3_mul",s_ivec3_mul},
{"ivec3_muladd",s_ivec3_muladd},
{"ivec3_muladds",s_ivec3_muladds},
{"ivec3_mulsub",s_ivec3_mulsub},
{"ivec3_mulsubs",s_ivec3_mulsubs},
{"ivec3_norm",s_ivec3_norm},
{"ivec3_norm2",s_ivec3_norm2},
{"ivec3_one",s_ivec3_one},
{"ivec3_pack",s_ivec3_pack},
{"ivec3_scale",s_ivec3_scale},
{"ivec3_sub",s_ivec3_sub},
{"ivec3_subadd",s_ivec3_subadd},
{"ivec3_subadds",s_ivec3_subadds},
{"ivec3_subs",s_ivec3_subs},
{"ivec3_subsub",s_ivec3_subsub},
{"ivec3_subsubs",s_ivec3_subsubs},
{"ivec3_unpack",s_ivec3_unpack},
{"ivec3_zero",s_ivec3_zero},
{"ivec4",s_ivec4},
{"ivec4_add",s_ivec4_add},
{"ivec4_addadd",s_ivec4_addadd},
{"ivec4_addadds",s_ivec4_addadds},
{"ivec4_adds",s_ivec4_adds},
{"ivec4_addsub",s_ivec4_addsub},
{"ivec4_addsubs",s_ivec4_addsubs},
{"ivec4_clamp",s_ivec4_clamp},
{"ivec4_distance",s_ivec4_distance},
{"ivec4_distance2",s_ivec4_distance2},
{"ivec4_maxadd",s_ivec4_maxadd},
{"ivec4_maxsub",s_ivec4_maxsub},
{"ivec4_maxv",s_ivec4_maxv},
{"ivec4_minadd",s_ivec4_minadd},
{"ivec4_minsub",s_ivec4_minsub},
{"ivec4_minv",s_ivec4_minv},
{"ivec4_mul",s_ivec4_mul},
{"ivec4_muladd",s_ivec4_muladd},
{"ivec4_muladds",s_ivec4_muladds},
{"ivec4_mulsub",s_ivec4_mulsub},
{"ivec4_mulsubs",s_ivec4_mulsubs},
{"ivec4_one",s_ivec4_one},
{"ivec4_pack",s_ivec4_pack},
{"ivec4_scale",s_ivec4_scale},
{"ivec4_sub",s_ivec4_sub},
{"ivec4_subadd",s_ivec4_subadd},
{"ivec4_subadds",s_ivec4_subadds},
{"ivec4_subs",s_ivec4_subs},
{"ivec4_subsub",s_ivec4_subsub},
{"ivec4_subsubs",s_ivec4_subsubs},
{"ivec4_unpack",s_ivec4_unpack},
{"ivec4_zero",s_ivec4_zero},
{"const_ivec2_one_init",s_const_ivec2_one_init},
{"const_ivec2_one",s_const_ivec2_one},
{"const_ivec2_zero_init",s_const_ivec2_zero_init},
{"const_ivec2_zero",s_const_ivec2_zero},
{"const_ivec3_one_init",s_const_ivec3_one_init},
{"const_ivec3_one",s_const_ivec3_one},
{"const_ivec3_zero_init",s_const_ivec3_zero_init},
{"const_ivec3_zero",s_const_ivec3_zero},
{"const_ivec4_one_init",s_const_ivec4_one_init},
{"const_ivec4_one",s_const_ivec4_one},
{"const_ivec4_zero_init",s_const_ivec4_zero_init},
{"const_ivec4_zero",s_const_ivec4_zero},
#endif
#if defined(W_C02) || defined(W_C03) || defined(W_ALL)
{"ivec2_abs",s_ivec2_abs},
{"ivec2_eq",s_ivec2_eq},
{"ivec2_eqv",s_ivec2_eqv},
{"ivec3_abs",s_ivec3_abs},
{"ivec3_eq",s_ivec3_eq},
{"ivec3_eqv",s_ivec3_eqv},
{"ivec4_abs",s_ivec4_abs},
#endif
#if defined(W_C03) || defined(W_ALL)
{"vec2_abs",s_vec2_abs},
{"vec2_eq",s_vec2_eq},
{"vec2_eq_all",s_vec2_eq_all},
{"vec2_eq_eps",s_vec2_eq_eps},
{"vec2_eqv",s_vec2_eqv},
{"vec2_eqv_eps",s_vec2_eqv_eps},
{"vec2_floor",s_vec2_floor},
{"vec2_fract",s_vec2_fract},
{"vec2_isinf",s_vec2_isinf},
{"vec2_isnan",s_vec2_isnan},
{"vec2_isvalid",s_vec2_isvalid},
{"vec2_max",s_vec2_max},
{"vec2_min",s_vec2_min},
{"vec2_mods",s_vec2_mods},
{"vec2_sign",s_vec2_sign},
{"vec2_sqrt",s_vec2_sqrt},
{"vec3_abs",s_vec3_abs},
{"vec3_eq",s_vec3_eq},
{"vec3_eq_all",s_vec3_eq_all},
{"vec3_eq_eps",s_vec3_eq_eps},
{"vec3_eqv",s_vec3_eqv},
{"vec3_eqv_eps",s_vec3_eqv_eps},
{"vec3_floor",s_vec3_floor},
{"vec3_fract",s_vec3_fract},
{"vec3_isinf",s_vec3_isinf},
{"vec3_isnan",s_vec3_isnan},
{"vec3_isvalid",s_vec3_isvalid},
{"vec3_max",s_vec3_max},
{"vec3_min",s_vec3_min},
{"vec3_mods",s_vec3_mods},
{"vec3_sign",s_vec3_sign},
{"vec3_sqrt",s_vec3_sqrt},
{"vec3_swizzle",s_vec3_swizzle},
{"vec4_abs",s_vec4_abs},
{"vec4_eq",s_vec4_eq},
{"vec4_eq_all",s_vec4_eq_all},
{"vec4_eq_eps",s_vec4_eq_eps},
{"vec4_eqv",s_vec4_eqv},
{"vec4_eqv_eps",s_vec4_eqv_eps},
{"vec4_floor",s_vec4_floor},
{"vec4_fract",s_vec4_fract},
{"vec4_isinf",s_vec4_isinf},
{"vec4_isnan",s_vec4_isnan},
{"vec4_isvalid",s_vec4_isvalid},
{"vec4_max",s_vec4_max},
{"vec4_min",s_vec4_min},
{"vec4_mods",s_vec4_mods},
{"vec4_sign",s_vec4_sign},
{"vec4_sqrt",s_vec4_sqrt},
{"vec4_swizzle",s_vec4_swizzle},
#endif
#if defined(W_C03) || defined(W_C04) || defined(W_ALL)
{"vec2_step",s_vec2_step},
{"vec2_stepr",s_vec2_stepr},
{"vec2_steps",s_vec2_steps},
{"vec3_step",s_vec3_step},
{"vec3_step_uni",s_vec3_step_uni},
{"vec3_stepr",s_vec3_stepr},
{"vec3_steps",s_vec3_steps},
{"vec4_step",s_vec4_step},
{"vec4_step_uni",s_vec4_step_uni},
{"vec4_stepr",s_vec4_stepr},
{"vec4_steps",s_vec4_steps},
#endif
#if defined(W_C04) || defined(W_ALL)
{"luminance",s_luminance},
{"vec2_lerp",s_vec2_lerp},
{"vec3_lerp",s_vec3_lerp},
{"vec3_lerpc",s_vec3_lerpc},
{"vec3_mix",s_vec3_mix},
{"vec3_mixc",s_vec3_mixc},
{"vec3_smoothinterp",s_vec3_smoothinterp},
{"vec3_smoothinterpc",s_vec3_smoothinterpc},
{"vec3_smoothstep",s_vec3_smoothstep},
{"vec3_smoothstep_uni",s_vec3_smoothstep_uni},
{"vec4_lerp",s_vec4_lerp},
{"vec4_lerpc",s_vec4_lerpc},
{"vec4_mix",s_vec4_mix},
{"vec4_mixc",s_vec4_mixc},
{"vec4_smoothinterp",s_vec4_smoothinterp},
{"vec4_smoothinterpc",s_vec4_smoothinterpc},
{"vec4_smoothstep",s_vec4_smoothstep},
{"vec4_smoothstep_uni",s_vec4_smoothstep_uni},
#endif
#if defined(W_C05) || defined(W_ALL)
{"normalize",s_normalize},
{"vec2_center",s_vec2_center},
{"vec2_normalize",s_vec2_normalize},
{"vec2_reflect",s_vec2_reflect},
{"vec2_refract",s_vec2_refract},
{"vec2_rotate",s_vec2_rotate},
{"vec2_scale_as",s_vec2_scale_as},
{"vec3_angle",s_vec3_angle},
{"vec3_center",s_vec3_center},
{"vec3_crossn",s_vec3_crossn},
{"vec3_faceforward",s_vec3_faceforward},
{"vec3_normalize",s_vec3_normalize},
{"vec3_ortho",s_vec3_ortho},
{"vec3_proj",s_vec3_proj},
{"vec3_reflect",s_vec3_reflect},
{"vec3_refract",s_vec3_refract},
{"vec3_rotate",s_vec3_rotate},
{"vec3_rotate_m3",s_vec3_rotate_m3},
{"vec3_rotate_m4",s_vec3_rotate_m4},
{"vec3_scale_as",s_vec3_scale_as},
{"vec4_normalize",s_vec4_normalize},
{"vec4_reflect",s_vec4_reflect},
{"vec4_refract",s_vec4_refract},
{"vec4_scale_as",s_vec4_scale_as},
#endif
#if defined(W_C06) || defined(W_ALL)
{"mat2_identity",s_mat2_identity},
{"mat2_identity_array",s_mat2_identity_array},
{"mat2_make",s_mat2_make},
{"mat2_mul",s_mat2_mul},
{"mat2_mulv",s_mat2_mulv},
{"mat2_rmc",s_mat2_rmc},
{"mat2_scale",s_mat2_scale},
{"mat2_swap_col",s_mat2_swap_col},
{"mat2_swap_row",s_mat2_swap_row},
{"mat2_trace",s_mat2_trace},
{"mat2_transpose",s_mat2_transpose},
{"mat2_zero",s_mat2_zero},
{"mat2x3_make",s_mat2x3_make},
{"mat2x3_mul",s_mat2x3_mul},
{"mat2x3_mulv",s_mat2x3_mulv},
{"mat2x3_scale",s_mat2x3_scale},
{"mat2x3_transpose",s_mat2x3_transpose},
{"mat2x3_zero",s_mat2x3_zero},
{"mat2x4_make",s_mat2x4_make},
{"mat2x4_mul",s_mat2x4_mul},
{"mat2x4_mulv",s_mat2x4_mulv},
{"mat2x4_scale",s_mat2x4_scale},
{"mat2x4_transpose",s_mat2x4_transpose},
{"mat2x4_zero",s_mat2x4_zero},
{"mat3_copy",s_mat3_copy},
{"mat3_identity",s_mat3_identity},
{"mat3_identity_array",s_mat3_identity_array},
{"mat3_make",s_mat3_make},
{"mat3_mul",s_mat3_mul},
{"mat3_mulv",s_mat3_mulv},
{"mat3_rmc",s_mat3_rmc},
{"mat3_scale",s_mat3_scale},
{"mat3_swap_col",s_mat3_swap_col},
{"mat3_swap_row",s_mat3_swap_row},
{"mat3_trace",s_mat3_trace},
{"mat3_transpose",s_mat3_transpose},
{"mat3_zero",s_mat3_zero},
{"mat3x2_make",s_mat3x2_make},
{"mat3x2_mul",s_mat3x2_mul},
{"mat3x2_mulv",s_mat3x2_mulv},
{"mat3x2_scale",s_mat3x2_scale},
{"mat3x2_transpose",s_mat3x2_transpose},
{"mat3x2_zero",s_mat3x2_zero},
{"mat3x4_make",s_mat3x4_make},
{"mat3x4_mul",s_mat3x4_mul},
{"mat3x4_mulv",s_mat3x4_mulv},
{"mat3x4_scale",s_mat3x4_scale},
{"mat3x4_transpose",s_mat3x4_transpose},
{"mat3x4_zero",s_mat3x4_zero},
{"mat4_copy",s_mat4_copy},
{"mat4_identity",s_mat4_identity},
{"mat4_identity_array",s_mat4_identity_array},
{"mat4_ins3",s_mat4_ins3},
{"mat4_make",s_mat4_make},
{"mat4_mul",s_mat4_mul},
{"mat4_mulN",s_mat4_mulN},
{"mat4_mulv",s_mat4_mulv},
{"mat4_mulv3",s_mat4_mulv3},
{"mat4_pick3",s_mat4_pick3},
{"mat4_pick3t",s_mat4_pick3t},
{"mat4_rmc",s_mat4_rmc},
{"mat4_scale",s_mat4_scale},
{"mat4_scale_p",s_mat4_scale_p},
{"mat4_swap_col",s_mat4_swap_col},
{"mat4_swap_row",s_mat4_swap_row},
{"mat4_trace",s_mat4_trace},
{"mat4_trace3",s_mat4_trace3},
{"mat4_transpose",s_mat4_transpose},
{"mat4_ucopy",s_mat4_ucopy},
{"mat4_zero",s_mat4_zero},
{"mat4x2_make",s_mat4x2_make},
{"mat4x2_mul",s_mat4x2_mul},
{"mat4x2_mulv",s_mat4x2_mulv},
{"mat4x2_scale",s_mat4x2_scale},
{"mat4x2_transpose",s_mat4x2_transpose},
{"mat4x2_zero",s_mat4x2_zero},
{"mat4x3_make",s_mat4x3_make},
{"mat4x3_mul",s_mat4x3_mul},
{"mat4x3_mulv",s_mat4x3_mulv},
{"mat4x3_scale",s_mat4x3_scale},
{"mat4x3_transpose",s_mat4x3_transpose},
{"mat4x3_zero",s_mat4x3_zero},
{"const_mat2_zero_init",s_const_mat2_zero_init},
{"const_mat2_zero",s_const_mat2_zero},
{"const_mat2_identity_init",s_const_mat2_identity_init},
{"const_mat2_identity",s_const_mat2_identity},
{"const_mat2x3_zero_init",s_const_mat2x3_zero_init},
{"const_mat2x3_zero",s_const_mat2x3_zero},
{"const_mat2x4_zero_init",s_const_mat2x4_zero_init},
{"const_mat2x4_zero",s_const_mat2x4_zero},
{"const_mat3x2_zero_init",s_const_mat3x2_zero_init},
{"const_mat3x2_zero",s_const_mat3x2_zero},
{"const_mat3_zero_init",s_const_mat3_zero_init},
{"const_mat3_zero",s_const_mat3_zero},
{"const_mat3_identity_init",s_const_mat3_identity_init},
{"const_mat3_identity",s_const_mat3_identity},
{"const_mat3x4_zero_init",s_const_mat3x4_zero_init},
{"const_mat3x4_zero",s_const_mat3x4_zero},
{"const_mat4x2_zero_init",s_const_mat4x2_zero_init},
{"const_mat4x2_zero",s_const_mat4x2_zero},
{"const_mat4x3_zero_init",s_const_mat4x3_zero_init},
{"const_mat4x3_zero",s_const_mat4x3_zero},
{"const_mat4_zero_init",s_const_mat4_zero_init},
{"const_mat4_zero",s_const_mat4_zero},
{"const_mat4_identity_init",s_const_mat4_identity_init},
{"const_mat4_identity",s_const_mat4_identity},
#endif
#if defined(W_C07) || defined(W_ALL)
{"mat2_det",s_mat2_det},
{"mat2_inv",s_mat2_inv},
{"mat3_det",s_mat3_det},
{"mat3_inv",s_mat3_inv},
{"mat4_det",s_mat4_det},
{"mat4_inv",s_mat4_inv},
{"mat4_inv_fast",s_mat4_inv_fast},
#endif
#if defined(W_C08) || defined(W_ALL)
{"decompose",s_decompose},
{"decompose_rs",s_decompose_rs},
{"decompose_scalev",s_decompose_scalev},
{"inv_tr",s_inv_tr},
{"mul",s_mul},
{"mul_rot",s_mul_rot},
{"rotate",s_rotate},
{"rotate_at",s_rotate_at},
{"rotate_atm",s_rotate_atm},
{"rotate_make",s_rotate_make},
{"rotate_x",s_rotate_x},
{"rotate_y",s_rotate_y},
{"rotate_z",s_rotate_z},
{"rotated",s_rotated},
{"rotated_at",s_rotated_at},
{"rotated_x",s_rotated_x},
{"rotated_y",s_rotated_y},
{"rotated_z",s_rotated_z},
{"scale",s_scale},
{"scale_make",s_scale_make},
{"scale_uni",s_scale_uni},
{"spin",s_spin},
{"spinned",s_spinned},
{"translate",s_translate},
{"translate_make",s_translate_make},
{"translate_x",s_translate_x},
{"translate_y",s_translate_y},
{"translate_z",s_translate_z},
{"translated",s_translated},
{"translated_x",s_translated_x},
{"translated_y",s_translated_y},
{"translated_z",s_translated_z},
{"uniscaled",s_uniscaled},
#endif
#if defined(W_C09) || defined(W_ALL)
{"mat3_textrans",s_mat3_textrans},
{"mat4_textrans",s_mat4_textrans},
{"rotate2d",s_rotate2d},
{"rotate2d_make",s_rotate2d_make},
{"rotate2d_to",s_rotate2d_to},
{"scale2d",s_scale2d},
{"scale2d_make",s_scale2d_make},
{"scale2d_uni",s_scale2d_uni},
{"translate2d",s_translate2d},
{"translate2d_make",s_translate2d_make},
{"translate2d_x",s_translate2d_x},
{"translate2d_y",s_translate2d_y},
#endif
#if defined(W_C10) || defined(W_ALL)
{"quat",s_quat},
{"quat_add",s_quat_add},
{"quat_angle",s_quat_angle},
{"quat_axis",s_quat_axis},
{"quat_conjugate",s_quat_conjugate},
{"quat_dot",s_quat_dot},
{"quat_from_vecs",s_quat_from_vecs},
{"quat_identity",s_quat_identity},
{"quat_identity_array",s_quat_identity_array},
{"quat_imaglen",s_quat_imaglen},
{"quat_imagn",s_quat_imagn},
{"quat_init",s_quat_init},
{"quat_inv",s_quat_inv},
{"quat_make",s_quat_make},
{"quat_mul",s_quat_mul},
{"quat_norm",s_quat_norm},
{"quat_normalize",s_quat_normalize},
{"quat_sub",s_quat_sub},
{"quatv",s_quatv},
{"const_quat_identity_init",s_const_quat_identity_init},
{"const_quat_identity",s_const_quat_identity},
#endif
#if defined(W_C10) || defined(W_C11) || defined(W_ALL)
{"quat_rotatev",s_quat_rotatev},
#endif
#if defined(W_C11) || defined(W_ALL)
{"mat3_quat",s_mat3_quat},
{"mat4_quat",s_mat4_quat},
{"quat_for",s_quat_for},
{"quat_forp",s_quat_forp},
{"quat_look",s_quat_look},
{"quat_mat3",s_quat_mat3},
{"quat_mat3t",s_quat_mat3t},
{"quat_mat4",s_quat_mat4},
{"quat_mat4t",s_quat_mat4t},
{"quat_rotate",s_quat_rotate},
{"quat_rotate_at",s_quat_rotate_at},
{"quat_rotate_atm",s_quat_rotate_atm},
#endif
#if defined(W_C12) || defined(W_ALL)
{"quat_lerp",s_quat_lerp},
{"quat_lerpc",s_quat_lerpc},
{"quat_nlerp",s_quat_nlerp},
{"quat_slerp",s_quat_slerp},
{"quat_slerp_longest",s_quat_slerp_longest},
#endif
#if defined(W_C13) || defined(W_ALL)
{"euler_angles",s_euler_angles},
{"euler_by_order",s_euler_by_order},
{"euler_xyz",s_euler_xyz},
{"euler_xyz_quat",s_euler_xyz_quat},
{"euler_xzy",s_euler_xzy},
{"euler_xzy_quat",s_euler_xzy_quat},
{"euler_yxz",s_euler_yxz},
{"euler_yxz_quat",s_euler_yxz_quat},
{"euler_yzx",s_euler_yzx},
{"euler_yzx_quat",s_euler_yzx_quat},
{"euler_zxy",s_euler_zxy},
{"euler_zxy_quat",s_euler_zxy_quat},
{"euler_zyx",s_euler_zyx},
{"euler_zyx_quat",s_euler_zyx_quat},
#endif
#if (defined(W_C13) || defined(W_ALL)) && !defined(PLAIN)
{"euler_xyz_quat_lh",s_euler_xyz_quat_lh},
{"euler_xyz_quat_rh",s_euler_xyz_quat_rh},
{"euler_xzy_quat_lh",s_euler_xzy_quat_lh},
{"euler_xzy_quat_rh",s_euler_xzy_quat_rh},
{"euler_yxz_quat_lh",s_euler_yxz_quat_lh},
{"euler_yxz_quat_rh",s_euler_yxz_quat_rh},
{"euler_yzx_quat_lh",s_euler_yzx_quat_lh},
{"euler_yzx_quat_rh",s_euler_yzx_quat_rh},
{"euler_zxy_quat_lh",s_euler_zxy_quat_lh},
{"euler_zxy_quat_rh",s_euler_zxy_quat_rh},
{"euler_zyx_quat_lh",s_euler_zyx_quat_lh},
{"euler_zyx_quat_rh",s_euler_zyx_quat_rh},
#endif
#if defined(W_C14) || defined(W_ALL)
{"look",s_look},
{"look_anyup",s_look_anyup},
{"lookat",s_lookat},
{"const_xup",s_const_xup},
{"const_yup",s_const_yup},
{"const_zup",s_const_zup},
#endif
#if (defined(W_C14) || defined(W_ALL)) && !defined(PLAIN)
{"look_anyup_lh_no",s_look_anyup_lh_no},
{"look_anyup_lh_zo",s_look_anyup_lh_zo},
{"look_anyup_rh_no",s_look_anyup_rh_no},
{"look_anyup_rh_zo",s_look_anyup_rh_zo},
{"look_lh_no",s_look_lh_no},
{"look_lh_zo",s_look_lh_zo},
{"look_rh_no",s_look_rh_no},
{"look_rh_zo",s_look_rh_zo},
{"lookat_lh_no",s_lookat_lh_no},
{"lookat_lh_zo",s_lookat_lh_zo},
{"lookat_rh_no",s_lookat_rh_no},
{"lookat_rh_zo",s_lookat_rh_zo},
#endif
#if defined(W_C15) || defined(W_ALL)
{"frustum",s_frustum},
{"ortho",s_ortho},
{"ortho_aabb",s_ortho_aabb},
{"ortho_aabb_p",s_ortho_aabb_p},
{"ortho_aabb_pz",s_ortho_aabb_pz},
{"ortho_default",s_ortho_default},
{"ortho_default_s",s_ortho_default_s},
{"perspective",s_perspective},
{"perspective_default",s_perspective_default},
#endif
#if (defined(W_C15) || defined(W_ALL)) && !defined(PLAIN)
{"frustum_lh_no",s_frustum_lh_no},
{"frustum_lh_zo",s_frustum_lh_zo},
{"frustum_rh_no",s_frustum_rh_no},
{"frustum_rh_zo",s_frustum_rh_zo},
{"ortho_aabb_lh_no",s_ortho_aabb_lh_no},
{"ortho_aabb_lh_zo",s_ortho_aabb_lh_zo},
{"ortho_aabb_p_lh_no",s_ortho_aabb_p_lh_no},
{"ortho_aabb_p_lh_zo",s_ortho_aabb_p_lh_zo},
{"ortho_aabb_p_rh_no",s_ortho_aabb_p_rh_no},
{"ortho_aabb_p_rh_zo",s_ortho_aabb_p_rh_zo},
{"ortho_aabb_pz_lh_no",s_ortho_aabb_pz_lh_no},
{"ortho_aabb_pz_lh_zo",s_ortho_aabb_pz_lh_zo},
{"ortho_aabb_pz_rh_no",s_ortho_aabb_pz_rh_no},
{"ortho_aabb_pz_rh_zo",s_ortho_aabb_pz_rh_zo},
{"ortho_aabb_rh_no",s_ortho_aabb_rh_no},
{"ortho_aabb_rh_zo",s_ortho_aabb_rh_zo},
{"ortho_default_lh_no",s_ortho_default_lh_no},
{"ortho_default_lh_zo",s_ortho_default_lh_zo},
{"ortho_default_rh_no",s_ortho_default_rh_no},
{"ortho_default_rh_zo",s_ortho_default_rh_zo},
{"ortho_default_s_lh_no",s_ortho_default_s_lh_no},
{"ortho_default_s_lh_zo",s_ortho_default_s_lh_zo},
{"ortho_default_s_rh_no",s_ortho_default_s_rh_no},
{"ortho_default_s_rh_zo",s_ortho_default_s_rh_zo},
{"ortho_lh_no",s_ortho_lh_no},
{"ortho_lh_zo",s_ortho_lh_zo},
{"ortho_rh_no",s_ortho_rh_no},
{"ortho_rh_zo",s_ortho_rh_zo},
{"perspective_default_lh_no",s_perspective_default_lh_no},
{"perspective_default_lh_zo",s_perspective_default_lh_zo},
{"perspective_default_rh_no",s_perspective_default_rh_no},
{"perspective_default_rh_zo",s_perspective_default_rh_zo},
{"perspective_lh_no",s_perspective_lh_no},
{"perspective_lh_zo",s_perspective_lh_zo},
{"perspective_rh_no",s_perspective_rh_no},
{"perspective_rh_zo",s_perspective_rh_zo},
#endif
#if defined(W_C15) || defined(W_C16) || defined(W_ALL)
{"perspective_resize",s_perspective_resize},
#endif
#if (defined(W_C15) || defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
{"perspective_resize_lh_no",s_perspective_resize_lh_no},
{"perspective_resize_lh_zo",s_perspective_resize_lh_zo},
{"perspective_resize_rh_no",s_perspective_resize_rh_no},
{"perspective_resize_rh_zo",s_perspective_resize_rh_zo},
#endif
#if defined(W_C16) || defined(W_ALL)
{"persp_aspect",s_persp_aspect},
{"persp_decomp",s_persp_decomp},
{"persp_decomp_far",s_persp_decomp_far},
{"persp_decomp_near",s_persp_decomp_near},
{"persp_decomp_x",s_persp_decomp_x},
{"persp_decomp_y",s_persp_decomp_y},
{"persp_decomp_z",s_persp_decomp_z},
{"persp_decompv",s_persp_decompv},
{"persp_fovy",s_persp_fovy},
{"persp_move_far",s_persp_move_far},
{"persp_sizes",s_persp_sizes},
#endif
#if (defined(W_C16) || defined(W_ALL)) && !defined(PLAIN)
{"persp_aspect_lh_no",s_persp_aspect_lh_no},
{"persp_aspect_lh_zo",s_persp_aspect_lh_zo},
{"persp_aspect_rh_no",s_persp_aspect_rh_no},
{"persp_aspect_rh_zo",s_persp_aspect_rh_zo},
{"persp_decomp_far_lh_no",s_persp_decomp_far_lh_no},
{"persp_decomp_far_lh_zo",s_persp_decomp_far_lh_zo},
{"persp_decomp_far_rh_no",s_persp_decomp_far_rh_no},
{"persp_decomp_far_rh_zo",s_persp_decomp_far_rh_zo},
{"persp_decomp_lh_no",s_persp_decomp_lh_no},
{"persp_decomp_lh_zo",s_persp_decomp_lh_zo},
{"persp_decomp_near_lh_no",s_persp_decomp_near_lh_no},
{"persp_decomp_near_lh_zo",s_persp_decomp_near_lh_zo},
{"persp_decomp_near_rh_no",s_persp_decomp_near_rh_no},
{"persp_decomp_near_rh_zo",s_persp_decomp_near_rh_zo},
{"persp_decomp_rh_no",s_persp_decomp_rh_no},
{"persp_decomp_rh_zo",s_persp_decomp_rh_zo},
{"persp_decomp_x_lh_no",s_persp_decomp_x_lh_no},
{"persp_decomp_x_lh_zo",s_persp_decomp_x_lh_zo},
{"persp_decomp_x_rh_no",s_persp_decomp_x_rh_no},
{"persp_decomp_x_rh_zo",s_persp_decomp_x_rh_zo},
{"persp_decomp_y_lh_no",s_persp_decomp_y_lh_no},
{"persp_decomp_y_lh_zo",s_persp_decomp_y_lh_zo},
{"persp_decomp_y_rh_no",s_persp_decomp_y_rh_no},
{"persp_decomp_y_rh_zo",s_persp_decomp_y_rh_zo},
{"persp_decomp_z_lh_no",s_persp_decomp_z_lh_no},
{"persp_decomp_z_lh_zo",s_persp_decomp_z_lh_zo},
{"persp_decomp_z_rh_no",s_persp_decomp_z_rh_no},
{"persp_decomp_z_rh_zo",s_persp_decomp_z_rh_zo},
{"persp_decompv_lh_no",s_persp_decompv_lh_no},
{"persp_decompv_lh_zo",s_persp_decompv_lh_zo},
{"persp_decompv_rh_no",s_persp_decompv_rh_no},
{"persp_decompv_rh_zo",s_persp_decompv_rh_zo},
{"persp_fovy_lh_no",s_persp_fovy_lh_no},
{"persp_fovy_lh_zo",s_persp_fovy_lh_zo},
{"persp_fovy_rh_no",s_persp_fovy_rh_no},
{"persp_fovy_rh_zo",s_persp_fovy_rh_zo},
{"persp_move_far_lh_no",s_persp_move_far_lh_no},
{"persp_move_far_lh_zo",s_persp_move_far_lh_zo},
{"persp_move_far_rh_no",s_persp_move_far_rh_no},
{"persp_move_far_rh_zo",s_persp_move_far_rh_zo},
{"persp_sizes_lh_no",s_persp_sizes_lh_no},
{"persp_sizes_lh_zo",s_persp_sizes_lh_zo},
{"persp_sizes_rh_no",s_persp_sizes_rh_no},
{"persp_sizes_rh_zo",s_persp_sizes_rh_zo},
#endif
#if defined(W_C17) || defined(W_ALL)
{"pickmatrix",s_pickmatrix},
{"project",s_project},
{"project_z",s_project_z},
{"unproject",s_unproject},
{"unprojecti",s_unprojecti},
#endif
#if (defined(W_C17) || defined(W_ALL)) && !defined(PLAIN)
{"project_no",s_project_no},
{"project_z_no",s_project_z_no},
{"project_z_zo",s_project_z_zo},
{"project_zo",s_project_zo},
{"unprojecti_no",s_unprojecti_no},
{"unprojecti_zo",s_unprojecti_zo},
#endif
#if defined(W_C18) || defined(W_ALL)
{"aabb_frustum",s_aabb_frustum},
{"frustum_box",s_frustum_box},
{"frustum_center",s_frustum_center},
{"frustum_corners",s_frustum_corners},
{"frustum_corners_at",s_frustum_corners_at},
{"frustum_planes",s_frustum_planes},
{"plane_normalize",s_plane_normalize},
{"const_cscoord_lbn",s_const_cscoord_lbn},
{"const_cscoord_ltn",s_const_cscoord_ltn},
{"const_cscoord_rtn",s_const_cscoord_rtn},
{"const_cscoord_rbn",s_const_cscoord_rbn},
{"const_cscoord_lbf",s_const_cscoord_lbf},
{"const_cscoord_ltf",s_const_cscoord_ltf},
{"const_cscoord_rtf",s_const_cscoord_rtf},
{"const_cscoord_rbf",s_const_cscoord_rbf},
#endif
#if defined(W_C19) || defined(W_ALL)
{"aabb2d_aabb",s_aabb2d_aabb},
{"aabb2d_center",s_aabb2d_center},
{"aabb2d_circle",s_aabb2d_circle},
{"aabb2d_contains",s_aabb2d_contains},
{"aabb2d_crop",s_aabb2d_crop},
{"aabb2d_crop_until",s_aabb2d_crop_until},
{"aabb2d_diag",s_aabb2d_diag},
{"aabb2d_invalidate",s_aabb2d_invalidate},
{"aabb2d_isvalid",s_aabb2d_isvalid},
{"aabb2d_merge",s_aabb2d_merge},
{"aabb2d_point",s_aabb2d_point},
{"aabb2d_radius",s_aabb2d_radius},
{"aabb2d_sizev",s_aabb2d_sizev},
{"aabb2d_transform",s_aabb2d_transform},
{"aabb_aabb",s_aabb_aabb},
{"aabb_center",s_aabb_center},
{"aabb_contains",s_aabb_contains},
{"aabb_crop",s_aabb_crop},
{"aabb_crop_until",s_aabb_crop_until},
{"aabb_invalidate",s_aabb_invalidate},
{"aabb_isvalid",s_aabb_isvalid},
{"aabb_merge",s_aabb_merge},
{"aabb_point",s_aabb_point},
{"aabb_radius",s_aabb_radius},
{"aabb_size",s_aabb_size},
{"aabb_sphere",s_aabb_sphere},
{"aabb_transform",s_aabb_transform},
#endif
#if defined(W_C20) || defined(W_ALL)
{"ray_at",s_ray_at},
{"ray_sphere",s_ray_sphere},
{"ray_triangle",s_ray_triangle},
{"sphere_merge",s_sphere_merge},
{"sphere_point",s_sphere_point},
{"sphere_radii",s_sphere_radii},
{"sphere_sphere",s_sphere_sphere},
{"sphere_transform",s_sphere_transform},
#endif
#if defined(W_C21) || defined(W_ALL)
{"smc",s_smc},
#endif
#if defined(W_C22) || defined(W_ALL)
{"perlin_vec2",s_perlin_vec2},
{"perlin_vec3",s_perlin_vec3},
{"perlin_vec4",s_perlin_vec4},
#endif
#if defined(W_C23) || defined(W_C28) || defined(W_ALL)
{"read_vec2s",s_read_vec2s},
{"write_vec2s",s_write_vec2s},
{"read_vec3s",s_read_vec3s},
{"write_vec3s",s_write_vec3s},
{"read_vec4s",s_read_vec4s},
{"write_vec4s",s_write_vec4s},
{"read_versors",s_read_versors},
{"write_versors",s_write_versors},
{"read_ivec2s",s_read_ivec2s},
{"write_ivec2s",s_write_ivec2s},
{"read_ivec3s",s_read_ivec3s},
{"write_ivec3s",s_write_ivec3s},
{"read_ivec4s",s_read_ivec4s},
{"write_ivec4s",s_write_ivec4s},
{"read_mat2s",s_read_mat2s},
{"write_mat2s",s_write_mat2s},
{"read_mat2x3s",s_read_mat2x3s},
{"write_mat2x3s",s_write_mat2x3s},
{"read_mat2x4s",s_read_mat2x4s},
{"write_mat2x4s",s_write_mat2x4s},
{"read_mat3x2s",s_read_mat3x2s},
{"write_mat3x2s",s_write_mat3x2s},
{"read_mat3s",s_read_mat3s},
{"write_mat3s",s_write_mat3s},
{"read_mat3x4s",s_read_mat3x4s},
{"write_mat3x4s",s_write_mat3x4s},
{"read_mat4x2s",s_read_mat4x2s},
{"write_mat4x2s",s_write_mat4x2s},
{"read_mat4x3s",s_read_mat4x3s},
{"write_mat4x3s",s_write_mat4x3s},
{"read_mat4s",s_read_mat4s},
{"write_mat4s",s_write_mat4s},
#endif
{0,0}};
