#define glms_aabb2d_aabb VN(aabb2d,aabb)
#define glms_aabb2d_center VN(aabb2d,center)
#define glms_aabb2d_circle VN(aabb2d,circle)
#define glms_aabb2d_contains VN(aabb2d,contains)
#define glms_aabb2d_crop VN(aabb2d,crop)
#define glms_aabb2d_crop_until VN(aabb2d,crop_until)
#define glms_aabb2d_diag VN(aabb2d,diag)
#define glms_aabb2d_invalidate VN(aabb2d,invalidate)
#define glms_aabb2d_isvalid VN(aabb2d,isvalid)
#define glms_aabb2d_merge VN(aabb2d,merge)
#define glms_aabb2d_point VN(aabb2d,point)
#define glms_aabb2d_radius VN(aabb2d,radius)
#define glms_aabb2d_sizev VN(aabb2d,sizev)
#define glms_aabb2d_transform VN(aabb2d,transform)
#define glms_aabb_aabb VN(aabb,aabb)
#define glms_aabb_center VN(aabb,center)
#define glms_aabb_contains VN(aabb,contains)
#define glms_aabb_crop VN(aabb,crop)
#define glms_aabb_crop_until VN(aabb,crop_until)
#define glms_aabb_frustum VN(aabb,frustum)
#define glms_aabb_invalidate VN(aabb,invalidate)
#define glms_aabb_isvalid VN(aabb,isvalid)
#define glms_aabb_merge VN(aabb,merge)
#define glms_aabb_point VN(aabb,point)
#define glms_aabb_radius VN(aabb,radius)
#define glms_aabb_size VN(aabb,size)
#define glms_aabb_sphere VN(aabb,sphere)
#define glms_aabb_transform VN(aabb,transform)
#define glms_ivec2_abs VN(ivec2,abs)
#define glms_ivec2_add VN(ivec2,add)
#define glms_ivec2_addadd VN(ivec2,addadd)
#define glms_ivec2_addadds VN(ivec2,addadds)
#define glms_ivec2_adds VN(ivec2,adds)
#define glms_ivec2_addsub VN(ivec2,addsub)
#define glms_ivec2_addsubs VN(ivec2,addsubs)
#define glms_ivec2_clamp VN(ivec2,clamp)
#define glms_ivec2_cross VN(ivec2,cross)
#define glms_ivec2_distance VN(ivec2,distance)
#define glms_ivec2_distance2 VN(ivec2,distance2)
#define glms_ivec2_div VN(ivec2,div)
#define glms_ivec2_divs VN(ivec2,divs)
#define glms_ivec2_dot VN(ivec2,dot)
#define glms_ivec2_eq VN(ivec2,eq)
#define glms_ivec2_eqv VN(ivec2,eqv)
#define glms_ivec2_fill VN(ivec2,fill)
#define glms_ivec2_maxadd VN(ivec2,maxadd)
#define glms_ivec2_maxsub VN(ivec2,maxsub)
#define glms_ivec2_maxv VN(ivec2,maxv)
#define glms_ivec2_minadd VN(ivec2,minadd)
#define glms_ivec2_minsub VN(ivec2,minsub)
#define glms_ivec2_minv VN(ivec2,minv)
#define glms_ivec2_mod VN(ivec2,mod)
#define glms_ivec2_mul VN(ivec2,mul)
#define glms_ivec2_muladd VN(ivec2,muladd)
#define glms_ivec2_muladds VN(ivec2,muladds)
#define glms_ivec2_mulsub VN(ivec2,mulsub)
#define glms_ivec2_mulsubs VN(ivec2,mulsubs)
#define glms_ivec2_one VN(ivec2,one)
#define glms_ivec2_pack VN(ivec2,pack)
#define glms_ivec2_scale VN(ivec2,scale)
#define glms_ivec2_sub VN(ivec2,sub)
#define glms_ivec2_subadd VN(ivec2,subadd)
#define glms_ivec2_subadds VN(ivec2,subadds)
#define glms_ivec2_subs VN(ivec2,subs)
#define glms_ivec2_subsub VN(ivec2,subsub)
#define glms_ivec2_subsubs VN(ivec2,subsubs)
#define glms_ivec2_unpack VN(ivec2,unpack)
#define glms_ivec2_zero VN(ivec2,zero)
#define glms_ivec3_abs VN(ivec3,abs)
#define glms_ivec3_add VN(ivec3,add)
#define glms_ivec3_addadd VN(ivec3,addadd)
#define glms_ivec3_addadds VN(ivec3,addadds)
#define glms_ivec3_adds VN(ivec3,adds)
#define glms_ivec3_addsub VN(ivec3,addsub)
#define glms_ivec3_addsubs VN(ivec3,addsubs)
#define glms_ivec3_clamp VN(ivec3,clamp)
#define glms_ivec3_distance VN(ivec3,distance)
#define glms_ivec3_distance2 VN(ivec3,distance2)
#define glms_ivec3_div VN(ivec3,div)
#define glms_ivec3_divs VN(ivec3,divs)
#define glms_ivec3_dot VN(ivec3,dot)
#define glms_ivec3_eq VN(ivec3,eq)
#define glms_ivec3_eqv VN(ivec3,eqv)
#define glms_ivec3_fill VN(ivec3,fill)
#define glms_ivec3_maxadd VN(ivec3,maxadd)
#define glms_ivec3_maxsub VN(ivec3,maxsub)
#define glms_ivec3_maxv VN(ivec3,maxv)
#define glms_ivec3_minadd VN(ivec3,minadd)
#define glms_ivec3_minsub VN(ivec3,minsub)
#define glms_ivec3_minv VN(ivec3,minv)
#define glms_ivec3_mod VN(ivec3,mod)
#define glms_ivec3_mul VN(ivec3,mul)
#define glms_ivec3_muladd VN(ivec3,muladd)
#define glms_ivec3_muladds VN(ivec3,muladds)
#define glms_ivec3_mulsub VN(ivec3,mulsub)
#define glms_ivec3_mulsubs VN(ivec3,mulsubs)
#define glms_ivec3_norm VN(ivec3,norm)
#define glms_ivec3_norm2 VN(ivec3,norm2)
#define glms_ivec3_one VN(ivec3,one)
#define glms_ivec3_pack VN(ivec3,pack)
#define glms_ivec3_scale VN(ivec3,scale)
#define glms_ivec3_sub VN(ivec3,sub)
#define glms_ivec3_subadd VN(ivec3,subadd)
#define glms_ivec3_subadds VN(ivec3,subadds)
#define glms_ivec3_subs VN(ivec3,subs)
#define glms_ivec3_subsub VN(ivec3,subsub)
#define glms_ivec3_subsubs VN(ivec3,subsubs)
#define glms_ivec3_unpack VN(ivec3,unpack)
#define glms_ivec3_zero VN(ivec3,zero)
#define glms_ivec4_abs VN(ivec4,abs)
#define glms_ivec4_add VN(ivec4,add)
#define glms_ivec4_addadd VN(ivec4,addadd)
#define glms_ivec4_addadds VN(ivec4,addadds)
#define glms_ivec4_adds VN(ivec4,adds)
#define glms_ivec4_addsub VN(ivec4,addsub)
#define glms_ivec4_addsubs VN(ivec4,addsubs)
#define glms_ivec4_clamp VN(ivec4,clamp)
#define glms_ivec4_distance VN(ivec4,distance)
#define glms_ivec4_distance2 VN(ivec4,distance2)
#define glms_ivec4_maxadd VN(ivec4,maxadd)
#define glms_ivec4_maxsub VN(ivec4,maxsub)
#define glms_ivec4_maxv VN(ivec4,maxv)
#define glms_ivec4_minadd VN(ivec4,minadd)
#define glms_ivec4_minsub VN(ivec4,minsub)
#define glms_ivec4_minv VN(ivec4,minv)
#define glms_ivec4_mul VN(ivec4,mul)
#define glms_ivec4_muladd VN(ivec4,muladd)
#define glms_ivec4_muladds VN(ivec4,muladds)
#define glms_ivec4_mulsub VN(ivec4,mulsub)
#define glms_ivec4_mulsubs VN(ivec4,mulsubs)
#define glms_ivec4_one VN(ivec4,one)
#define glms_ivec4_pack VN(ivec4,pack)
#define glms_ivec4_scale VN(ivec4,scale)
#define glms_ivec4_sub VN(ivec4,sub)
#define glms_ivec4_subadd VN(ivec4,subadd)
#define glms_ivec4_subadds VN(ivec4,subadds)
#define glms_ivec4_subs VN(ivec4,subs)
#define glms_ivec4_subsub VN(ivec4,subsub)
#define glms_ivec4_subsubs VN(ivec4,subsubs)
#define glms_ivec4_unpack VN(ivec4,unpack)
#define glms_ivec4_zero VN(ivec4,zero)
#define glms_mat2_det VN(mat2,det)
#define glms_mat2_identity VN(mat2,identity)
#define glms_mat2_identity_array VN(mat2,identity_array)
#define glms_mat2_inv VN(mat2,inv)
#define glms_mat2_make VN(mat2,make)
#define glms_mat2_mul VN(mat2,mul)
#define glms_mat2_mulv VN(mat2,mulv)
#define glms_mat2_rmc VN(mat2,rmc)
#define glms_mat2_scale VN(mat2,scale)
#define glms_mat2_swap_col VN(mat2,swap_col)
#define glms_mat2_swap_row VN(mat2,swap_row)
#define glms_mat2_trace VN(mat2,trace)
#define glms_mat2_transpose VN(mat2,transpose)
#define glms_mat2_zero VN(mat2,zero)
#define glms_mat2x3_make VN(mat2x3,make)
#define glms_mat2x3_mul VN(mat2x3,mul)
#define glms_mat2x3_mulv VN(mat2x3,mulv)
#define glms_mat2x3_scale VN(mat2x3,scale)
#define glms_mat2x3_transpose VN(mat2x3,transpose)
#define glms_mat2x3_zero VN(mat2x3,zero)
#define glms_mat2x4_make VN(mat2x4,make)
#define glms_mat2x4_mul VN(mat2x4,mul)
#define glms_mat2x4_mulv VN(mat2x4,mulv)
#define glms_mat2x4_scale VN(mat2x4,scale)
#define glms_mat2x4_transpose VN(mat2x4,transpose)
#define glms_mat2x4_zero VN(mat2x4,zero)
#define glms_mat3_copy VN(mat3,copy)
#define glms_mat3_det VN(mat3,det)
#define glms_mat3_identity VN(mat3,identity)
#define glms_mat3_identity_array VN(mat3,identity_array)
#define glms_mat3_inv VN(mat3,inv)
#define glms_mat3_make VN(mat3,make)
#define glms_mat3_mul VN(mat3,mul)
#define glms_mat3_mulv VN(mat3,mulv)
#define glms_mat3_quat VN(mat3,quat)
#define glms_mat3_rmc VN(mat3,rmc)
#define glms_mat3_scale VN(mat3,scale)
#define glms_mat3_swap_col VN(mat3,swap_col)
#define glms_mat3_swap_row VN(mat3,swap_row)
#define glms_mat3_textrans VN(mat3,textrans)
#define glms_mat3_trace VN(mat3,trace)
#define glms_mat3_transpose VN(mat3,transpose)
#define glms_mat3_zero VN(mat3,zero)
#define glms_mat3x2_make VN(mat3x2,make)
#define glms_mat3x2_mul VN(mat3x2,mul)
#define glms_mat3x2_mulv VN(mat3x2,mulv)
#define glms_mat3x2_scale VN(mat3x2,scale)
#define glms_mat3x2_transpose VN(mat3x2,transpose)
#define glms_mat3x2_zero VN(mat3x2,zero)
#define glms_mat3x4_make VN(mat3x4,make)
#define glms_mat3x4_mul VN(mat3x4,mul)
#define glms_mat3x4_mulv VN(mat3x4,mulv)
#define glms_mat3x4_scale VN(mat3x4,scale)
#define glms_mat3x4_transpose VN(mat3x4,transpose)
#define glms_mat3x4_zero VN(mat3x4,zero)
#define glms_mat4_copy VN(mat4,copy)
#define glms_mat4_det VN(mat4,det)
#define glms_mat4_identity VN(mat4,identity)
#define glms_mat4_identity_array VN(mat4,identity_array)
#define glms_mat4_ins3 VN(mat4,ins3)
#define glms_mat4_inv VN(mat4,inv)
#define glms_mat4_inv_fast VN(mat4,inv_fast)
#define glms_mat4_make VN(mat4,make)
#define glms_mat4_mul VN(mat4,mul)
#define glms_mat4_mulN VN(mat4,mulN)
#define glms_mat4_mulv VN(mat4,mulv)
#define glms_mat4_mulv3 VN(mat4,mulv3)
#define glms_mat4_pick3 VN(mat4,pick3)
#define glms_mat4_pick3t VN(mat4,pick3t)
#define glms_mat4_quat VN(mat4,quat)
#define glms_mat4_rmc VN(mat4,rmc)
#define glms_mat4_scale VN(mat4,scale)
#define glms_mat4_scale_p VN(mat4,scale_p)
#define glms_mat4_swap_col VN(mat4,swap_col)
#define glms_mat4_swap_row VN(mat4,swap_row)
#define glms_mat4_textrans VN(mat4,textrans)
#define glms_mat4_trace VN(mat4,trace)
#define glms_mat4_trace3 VN(mat4,trace3)
#define glms_mat4_transpose VN(mat4,transpose)
#define glms_mat4_ucopy VN(mat4,ucopy)
#define glms_mat4_zero VN(mat4,zero)
#define glms_mat4x2_make VN(mat4x2,make)
#define glms_mat4x2_mul VN(mat4x2,mul)
#define glms_mat4x2_mulv VN(mat4x2,mulv)
#define glms_mat4x2_scale VN(mat4x2,scale)
#define glms_mat4x2_transpose VN(mat4x2,transpose)
#define glms_mat4x2_zero VN(mat4x2,zero)
#define glms_mat4x3_make VN(mat4x3,make)
#define glms_mat4x3_mul VN(mat4x3,mul)
#define glms_mat4x3_mulv VN(mat4x3,mulv)
#define glms_mat4x3_scale VN(mat4x3,scale)
#define glms_mat4x3_transpose VN(mat4x3,transpose)
#define glms_mat4x3_zero VN(mat4x3,zero)
#define glms_quat_add VN(quat,add)
#define glms_quat_angle VN(quat,angle)
#define glms_quat_axis VN(quat,axis)
#define glms_quat_conjugate VN(quat,conjugate)
#define glms_quat_dot VN(quat,dot)
#define glms_quat_for VN(quat,for)
#define glms_quat_forp VN(quat,forp)
#define glms_quat_from_vecs VN(quat,from_vecs)
#define glms_quat_identity VN(quat,identity)
#define glms_quat_identity_array VN(quat,identity_array)
#define glms_quat_imaglen VN(quat,imaglen)
#define glms_quat_imagn VN(quat,imagn)
#define glms_quat_init VN(quat,init)
#define glms_quat_inv VN(quat,inv)
#define glms_quat_lerp VN(quat,lerp)
#define glms_quat_lerpc VN(quat,lerpc)
#define glms_quat_look VN(quat,look)
#define glms_quat_make VN(quat,make)
#define glms_quat_mat3 VN(quat,mat3)
#define glms_quat_mat3t VN(quat,mat3t)
#define glms_quat_mat4 VN(quat,mat4)
#define glms_quat_mat4t VN(quat,mat4t)
#define glms_quat_mul VN(quat,mul)
#define glms_quat_nlerp VN(quat,nlerp)
#define glms_quat_norm VN(quat,norm)
#define glms_quat_normalize VN(quat,normalize)
#define glms_quat_rotate VN(quat,rotate)
#define glms_quat_rotate_at VN(quat,rotate_at)
#define glms_quat_rotate_atm VN(quat,rotate_atm)
#define glms_quat_rotatev VN(quat,rotatev)
#define glms_quat_slerp VN(quat,slerp)
#define glms_quat_slerp_longest VN(quat,slerp_longest)
#define glms_quat_sub VN(quat,sub)
#define glms_ray_at VN(ray,at)
#define glms_ray_sphere VN(ray,sphere)
#define glms_ray_triangle VN(ray,triangle)
#define glms_vec2_abs VN(vec2,abs)
#define glms_vec2_add VN(vec2,add)
#define glms_vec2_addadd VN(vec2,addadd)
#define glms_vec2_adds VN(vec2,adds)
#define glms_vec2_addsub VN(vec2,addsub)
#define glms_vec2_center VN(vec2,center)
#define glms_vec2_clamp VN(vec2,clamp)
#define glms_vec2_complex_conjugate VN(vec2,complex_conjugate)
#define glms_vec2_complex_div VN(vec2,complex_div)
#define glms_vec2_complex_mul VN(vec2,complex_mul)
#define glms_vec2_cross VN(vec2,cross)
#define glms_vec2_distance VN(vec2,distance)
#define glms_vec2_distance2 VN(vec2,distance2)
#define glms_vec2_div VN(vec2,div)
#define glms_vec2_divs VN(vec2,divs)
#define glms_vec2_dot VN(vec2,dot)
#define glms_vec2_eq VN(vec2,eq)
#define glms_vec2_eq_all VN(vec2,eq_all)
#define glms_vec2_eq_eps VN(vec2,eq_eps)
#define glms_vec2_eqv VN(vec2,eqv)
#define glms_vec2_eqv_eps VN(vec2,eqv_eps)
#define glms_vec2_fill VN(vec2,fill)
#define glms_vec2_floor VN(vec2,floor)
#define glms_vec2_fract VN(vec2,fract)
#define glms_vec2_isinf VN(vec2,isinf)
#define glms_vec2_isnan VN(vec2,isnan)
#define glms_vec2_isvalid VN(vec2,isvalid)
#define glms_vec2_lerp VN(vec2,lerp)
#define glms_vec2_make VN(vec2,make)
#define glms_vec2_max VN(vec2,max)
#define glms_vec2_maxadd VN(vec2,maxadd)
#define glms_vec2_maxsub VN(vec2,maxsub)
#define glms_vec2_maxv VN(vec2,maxv)
#define glms_vec2_min VN(vec2,min)
#define glms_vec2_minadd VN(vec2,minadd)
#define glms_vec2_minsub VN(vec2,minsub)
#define glms_vec2_minv VN(vec2,minv)
#define glms_vec2_mods VN(vec2,mods)
#define glms_vec2_mul VN(vec2,mul)
#define glms_vec2_muladd VN(vec2,muladd)
#define glms_vec2_muladds VN(vec2,muladds)
#define glms_vec2_mulsub VN(vec2,mulsub)
#define glms_vec2_mulsubs VN(vec2,mulsubs)
#define glms_vec2_negate VN(vec2,negate)
#define glms_vec2_norm VN(vec2,norm)
#define glms_vec2_norm2 VN(vec2,norm2)
#define glms_vec2_normalize VN(vec2,normalize)
#define glms_vec2_one VN(vec2,one)
#define glms_vec2_pack VN(vec2,pack)
#define glms_vec2_reflect VN(vec2,reflect)
#define glms_vec2_refract VN(vec2,refract)
#define glms_vec2_rotate VN(vec2,rotate)
#define glms_vec2_scale VN(vec2,scale)
#define glms_vec2_scale_as VN(vec2,scale_as)
#define glms_vec2_sign VN(vec2,sign)
#define glms_vec2_sqrt VN(vec2,sqrt)
#define glms_vec2_step VN(vec2,step)
#define glms_vec2_stepr VN(vec2,stepr)
#define glms_vec2_steps VN(vec2,steps)
#define glms_vec2_sub VN(vec2,sub)
#define glms_vec2_subadd VN(vec2,subadd)
#define glms_vec2_subs VN(vec2,subs)
#define glms_vec2_subsub VN(vec2,subsub)
#define glms_vec2_unpack VN(vec2,unpack)
#define glms_vec2_zero VN(vec2,zero)
#define glms_vec3_abs VN(vec3,abs)
#define glms_vec3_add VN(vec3,add)
#define glms_vec3_addadd VN(vec3,addadd)
#define glms_vec3_adds VN(vec3,adds)
#define glms_vec3_addsub VN(vec3,addsub)
#define glms_vec3_angle VN(vec3,angle)
#define glms_vec3_broadcast VN(vec3,broadcast)
#define glms_vec3_center VN(vec3,center)
#define glms_vec3_clamp VN(vec3,clamp)
#define glms_vec3_cross VN(vec3,cross)
#define glms_vec3_crossn VN(vec3,crossn)
#define glms_vec3_distance VN(vec3,distance)
#define glms_vec3_distance2 VN(vec3,distance2)
#define glms_vec3_div VN(vec3,div)
#define glms_vec3_divs VN(vec3,divs)
#define glms_vec3_dot VN(vec3,dot)
#define glms_vec3_eq VN(vec3,eq)
#define glms_vec3_eq_all VN(vec3,eq_all)
#define glms_vec3_eq_eps VN(vec3,eq_eps)
#define glms_vec3_eqv VN(vec3,eqv)
#define glms_vec3_eqv_eps VN(vec3,eqv_eps)
#define glms_vec3_faceforward VN(vec3,faceforward)
#define glms_vec3_fill VN(vec3,fill)
#define glms_vec3_flipsign VN(vec3,flipsign)
#define glms_vec3_floor VN(vec3,floor)
#define glms_vec3_fract VN(vec3,fract)
#define glms_vec3_hadd VN(vec3,hadd)
#define glms_vec3_isinf VN(vec3,isinf)
#define glms_vec3_isnan VN(vec3,isnan)
#define glms_vec3_isvalid VN(vec3,isvalid)
#define glms_vec3_lerp VN(vec3,lerp)
#define glms_vec3_lerpc VN(vec3,lerpc)
#define glms_vec3_make VN(vec3,make)
#define glms_vec3_max VN(vec3,max)
#define glms_vec3_maxadd VN(vec3,maxadd)
#define glms_vec3_maxsub VN(vec3,maxsub)
#define glms_vec3_maxv VN(vec3,maxv)
#define glms_vec3_min VN(vec3,min)
#define glms_vec3_minadd VN(vec3,minadd)
#define glms_vec3_minsub VN(vec3,minsub)
#define glms_vec3_minv VN(vec3,minv)
#define glms_vec3_mix VN(vec3,mix)
#define glms_vec3_mixc VN(vec3,mixc)
#define glms_vec3_mods VN(vec3,mods)
#define glms_vec3_mul VN(vec3,mul)
#define glms_vec3_muladd VN(vec3,muladd)
#define glms_vec3_muladds VN(vec3,muladds)
#define glms_vec3_mulsub VN(vec3,mulsub)
#define glms_vec3_mulsubs VN(vec3,mulsubs)
#define glms_vec3_negate VN(vec3,negate)
#define glms_vec3_norm VN(vec3,norm)
#define glms_vec3_norm2 VN(vec3,norm2)
#define glms_vec3_norm_inf VN(vec3,norm_inf)
#define glms_vec3_norm_one VN(vec3,norm_one)
#define glms_vec3_normalize VN(vec3,normalize)
#define glms_vec3_one VN(vec3,one)
#define glms_vec3_ortho VN(vec3,ortho)
#define glms_vec3_pack VN(vec3,pack)
#define glms_vec3_proj VN(vec3,proj)
#define glms_vec3_reflect VN(vec3,reflect)
#define glms_vec3_refract VN(vec3,refract)
#define glms_vec3_rotate VN(vec3,rotate)
#define glms_vec3_rotate_m3 VN(vec3,rotate_m3)
#define glms_vec3_rotate_m4 VN(vec3,rotate_m4)
#define glms_vec3_scale VN(vec3,scale)
#define glms_vec3_scale_as VN(vec3,scale_as)
#define glms_vec3_sign VN(vec3,sign)
#define glms_vec3_smoothinterp VN(vec3,smoothinterp)
#define glms_vec3_smoothinterpc VN(vec3,smoothinterpc)
#define glms_vec3_smoothstep VN(vec3,smoothstep)
#define glms_vec3_smoothstep_uni VN(vec3,smoothstep_uni)
#define glms_vec3_sqrt VN(vec3,sqrt)
#define glms_vec3_step VN(vec3,step)
#define glms_vec3_stepr VN(vec3,stepr)
#define glms_vec3_steps VN(vec3,steps)
#define glms_vec3_sub VN(vec3,sub)
#define glms_vec3_subadd VN(vec3,subadd)
#define glms_vec3_subs VN(vec3,subs)
#define glms_vec3_subsub VN(vec3,subsub)
#define glms_vec3_swizzle VN(vec3,swizzle)
#define glms_vec3_unpack VN(vec3,unpack)
#define glms_vec3_zero VN(vec3,zero)
#define glms_vec4_abs VN(vec4,abs)
#define glms_vec4_add VN(vec4,add)
#define glms_vec4_addadd VN(vec4,addadd)
#define glms_vec4_adds VN(vec4,adds)
#define glms_vec4_addsub VN(vec4,addsub)
#define glms_vec4_broadcast VN(vec4,broadcast)
#define glms_vec4_clamp VN(vec4,clamp)
#define glms_vec4_copy VN(vec4,copy)
#define glms_vec4_copy3 VN(vec4,copy3)
#define glms_vec4_cubic VN(vec4,cubic)
#define glms_vec4_distance VN(vec4,distance)
#define glms_vec4_distance2 VN(vec4,distance2)
#define glms_vec4_div VN(vec4,div)
#define glms_vec4_divs VN(vec4,divs)
#define glms_vec4_dot VN(vec4,dot)
#define glms_vec4_eq VN(vec4,eq)
#define glms_vec4_eq_all VN(vec4,eq_all)
#define glms_vec4_eq_eps VN(vec4,eq_eps)
#define glms_vec4_eqv VN(vec4,eqv)
#define glms_vec4_eqv_eps VN(vec4,eqv_eps)
#define glms_vec4_fill VN(vec4,fill)
#define glms_vec4_floor VN(vec4,floor)
#define glms_vec4_fract VN(vec4,fract)
#define glms_vec4_hadd VN(vec4,hadd)
#define glms_vec4_isinf VN(vec4,isinf)
#define glms_vec4_isnan VN(vec4,isnan)
#define glms_vec4_isvalid VN(vec4,isvalid)
#define glms_vec4_lerp VN(vec4,lerp)
#define glms_vec4_lerpc VN(vec4,lerpc)
#define glms_vec4_make VN(vec4,make)
#define glms_vec4_max VN(vec4,max)
#define glms_vec4_maxadd VN(vec4,maxadd)
#define glms_vec4_maxsub VN(vec4,maxsub)
#define glms_vec4_maxv VN(vec4,maxv)
#define glms_vec4_min VN(vec4,min)
#define glms_vec4_minadd VN(vec4,minadd)
#define glms_vec4_minsub VN(vec4,minsub)
#define glms_vec4_minv VN(vec4,minv)
#define glms_vec4_mix VN(vec4,mix)
#define glms_vec4_mixc VN(vec4,mixc)
#define glms_vec4_mods VN(vec4,mods)
#define glms_vec4_mul VN(vec4,mul)
#define glms_vec4_muladd VN(vec4,muladd)
#define glms_vec4_muladds VN(vec4,muladds)
#define glms_vec4_mulsub VN(vec4,mulsub)
#define glms_vec4_mulsubs VN(vec4,mulsubs)
#define glms_vec4_negate VN(vec4,negate)
#define glms_vec4_norm VN(vec4,norm)
#define glms_vec4_norm2 VN(vec4,norm2)
#define glms_vec4_norm_inf VN(vec4,norm_inf)
#define glms_vec4_norm_one VN(vec4,norm_one)
#define glms_vec4_normalize VN(vec4,normalize)
#define glms_vec4_one VN(vec4,one)
#define glms_vec4_pack VN(vec4,pack)
#define glms_vec4_reflect VN(vec4,reflect)
#define glms_vec4_refract VN(vec4,refract)
#define glms_vec4_scale VN(vec4,scale)
#define glms_vec4_scale_as VN(vec4,scale_as)
#define glms_vec4_sign VN(vec4,sign)
#define glms_vec4_smoothinterp VN(vec4,smoothinterp)
#define glms_vec4_smoothinterpc VN(vec4,smoothinterpc)
#define glms_vec4_smoothstep VN(vec4,smoothstep)
#define glms_vec4_smoothstep_uni VN(vec4,smoothstep_uni)
#define glms_vec4_sqrt VN(vec4,sqrt)
#define glms_vec4_step VN(vec4,step)
#define glms_vec4_stepr VN(vec4,stepr)
#define glms_vec4_steps VN(vec4,steps)
#define glms_vec4_sub VN(vec4,sub)
#define glms_vec4_subadd VN(vec4,subadd)
#define glms_vec4_subs VN(vec4,subs)
#define glms_vec4_subsub VN(vec4,subsub)
#define glms_vec4_swizzle VN(vec4,swizzle)
#define glms_vec4_ucopy VN(vec4,ucopy)
#define glms_vec4_unpack VN(vec4,unpack)
#define glms_vec4_zero VN(vec4,zero)
