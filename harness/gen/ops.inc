/* generated by gen/ops.py: name family n m f ret flags nparams {kind,words,align,tag,role,name}... */
OP("cross","varith",3,0,"cross",'v',"",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"d"}})
OP("dot","varith",3,0,"dot",'f',"",0x2,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"}})
OP("vec2","varith",2,0,"ctor",'v',"x",0x2,2,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_add","varith",2,0,"add",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_addadd","varith",2,0,"addadd",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_adds","varith",2,0,"adds",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_addsub","varith",2,0,"addsub",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_clamp","varith",2,0,"clamp",'v',"x",0x2,3,{{'P',2,1,T_V,'u',0,"v"},{'F',0,0,T_S,'i',0,"minval"},{'F',0,0,T_S,'i',0,"maxval"}})
OP("vec2_complex_conjugate","varith",2,0,"complex_conjugate",'v',"x",0x2,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_complex_div","varith",2,0,"complex_div",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_complex_mul","varith",2,0,"complex_mul",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_copy","varith",2,0,"copy",'v',"x",0x2,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_cross","varith",2,0,"cross",'f',"x",0x2,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"}})
OP("vec2_distance","varith",2,0,"distance",'f',"x",0x2,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"}})
OP("vec2_distance2","varith",2,0,"distance2",'f',"x",0x2,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"}})
OP("vec2_div","varith",2,0,"div",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_divs","varith",2,0,"divs",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_dot","varith",2,0,"dot",'f',"x",0x2,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"}})
OP("vec2_fill","varith",2,0,"fill",'v',"x",0x2,2,{{'P',2,1,T_V,'u',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec2_make","varith",2,0,"make",'v',"x",0x2,2,{{'P',2,1,T_V,'i',0,"src"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_maxadd","varith",2,0,"maxadd",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_maxsub","varith",2,0,"maxsub",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_maxv","varith",2,0,"maxv",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_minadd","varith",2,0,"minadd",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_minsub","varith",2,0,"minsub",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_minv","varith",2,0,"minv",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_mul","varith",2,0,"mul",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_muladd","varith",2,0,"muladd",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_muladds","varith",2,0,"muladds",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_mulsub","varith",2,0,"mulsub",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_mulsubs","varith",2,0,"mulsubs",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_negate","varith",2,0,"negate",'v',"x",0x2,1,{{'P',2,1,T_V,'u',0,"v"}})
OP("vec2_negate_to","varith",2,0,"negate_to",'v',"x",0x2,2,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_norm","varith",2,0,"norm",'f',"x",0x2,1,{{'P',2,1,T_V,'i',0,"vec"}})
OP("vec2_norm2","varith",2,0,"norm2",'f',"x",0x2,1,{{'P',2,1,T_V,'i',0,"v"}})
OP("vec2_one","varith",2,0,"one",'v',"x",0x2,1,{{'P',2,1,T_V,'u',0,"v"}})
OP("vec2_pack","varith",2,0,"pack",'v',"x",0x2,3,{{'P',18,1,T_V,'o',0,"dest"},{'P',18,1,T_V,'i',0,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("vec2_scale","varith",2,0,"scale",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_sub","varith",2,0,"sub",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_subadd","varith",2,0,"subadd",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_subs","varith",2,0,"subs",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_subsub","varith",2,0,"subsub",'v',"x",0x2,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'u',0,"dest"}})
OP("vec2_unpack","varith",2,0,"unpack",'v',"x",0x2,3,{{'P',18,1,T_V,'o',0,"dest"},{'P',18,1,T_V,'i',0,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("vec2_zero","varith",2,0,"zero",'v',"x",0x2,1,{{'P',2,1,T_V,'u',0,"v"}})
OP("vec3","varith",3,0,"ctor",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"v4"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_add","varith",3,0,"add",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_addadd","varith",3,0,"addadd",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_adds","varith",3,0,"adds",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_addsub","varith",3,0,"addsub",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_broadcast","varith",3,0,"broadcast",'v',"x",0x2,2,{{'F',0,0,T_S,'i',0,"val"},{'P',3,1,T_V,'o',0,"d"}})
OP("vec3_clamp","varith",3,0,"clamp",'v',"x",0x2,3,{{'P',3,1,T_V,'u',0,"v"},{'F',0,0,T_S,'i',0,"minVal"},{'F',0,0,T_S,'i',0,"maxVal"}})
OP("vec3_copy","varith",3,0,"copy",'v',"x",0x2,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_cross","varith",3,0,"cross",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_distance","varith",3,0,"distance",'f',"x",0x2,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"}})
OP("vec3_distance2","varith",3,0,"distance2",'f',"x",0x2,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"}})
OP("vec3_div","varith",3,0,"div",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_divs","varith",3,0,"divs",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_dot","varith",3,0,"dot",'f',"x",0x2,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"}})
OP("vec3_dup","varith",3,0,"copy",'v',"x",0x2,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_fill","varith",3,0,"fill",'v',"x",0x2,2,{{'P',3,1,T_V,'u',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec3_flipsign","varith",3,0,"negate",'v',"x",0x2,1,{{'P',3,1,T_V,'u',0,"v"}})
OP("vec3_flipsign_to","varith",3,0,"negate_to",'v',"x",0x2,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_hadd","varith",3,0,"hadd",'f',"x",0x2,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_inv","varith",3,0,"negate",'v',"x",0x2,1,{{'P',3,1,T_V,'u',0,"v"}})
OP("vec3_inv_to","varith",3,0,"negate_to",'v',"x",0x2,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_make","varith",3,0,"make",'v',"x",0x2,2,{{'P',3,1,T_V,'i',0,"src"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_maxadd","varith",3,0,"maxadd",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_maxsub","varith",3,0,"maxsub",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_maxv","varith",3,0,"maxv",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_minadd","varith",3,0,"minadd",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_minsub","varith",3,0,"minsub",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_minv","varith",3,0,"minv",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_mul","varith",3,0,"mul",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_muladd","varith",3,0,"muladd",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_muladds","varith",3,0,"muladds",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_mulsub","varith",3,0,"mulsub",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_mulsubs","varith",3,0,"mulsubs",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_mulv","varith",3,0,"mul",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_negate","varith",3,0,"negate",'v',"x",0x2,1,{{'P',3,1,T_V,'u',0,"v"}})
OP("vec3_negate_to","varith",3,0,"negate_to",'v',"x",0x2,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_norm","varith",3,0,"norm",'f',"x",0x2,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_norm2","varith",3,0,"norm2",'f',"x",0x2,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_norm_inf","varith",3,0,"norm_inf",'f',"x",0x2,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_norm_one","varith",3,0,"norm_one",'f',"x",0x2,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_one","varith",3,0,"one",'v',"x",0x2,1,{{'P',3,1,T_V,'u',0,"v"}})
OP("vec3_pack","varith",3,0,"pack",'v',"x",0x2,3,{{'P',27,1,T_V,'o',0,"dest"},{'P',27,1,T_V,'i',0,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("vec3_scale","varith",3,0,"scale",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_sub","varith",3,0,"sub",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_subadd","varith",3,0,"subadd",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_subs","varith",3,0,"subs",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_subsub","varith",3,0,"subsub",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'u',0,"dest"}})
OP("vec3_unpack","varith",3,0,"unpack",'v',"x",0x2,3,{{'P',27,1,T_V,'o',0,"dest"},{'P',27,1,T_V,'i',0,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("vec3_zero","varith",3,0,"zero",'v',"x",0x2,1,{{'P',3,1,T_V,'u',0,"v"}})
OP("vec4","varith",4,0,"ctor",'v',"x",0x2,3,{{'P',3,1,T_V,'i',0,"v3"},{'F',0,0,T_S,'i',0,"last"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_add","varith",4,0,"add",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_addadd","varith",4,0,"addadd",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_adds","varith",4,0,"adds",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_addsub","varith",4,0,"addsub",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_broadcast","varith",4,0,"broadcast",'v',"x",0x2,2,{{'F',0,0,T_S,'i',0,"val"},{'P',4,4,T_V,'o',0,"d"}})
OP("vec4_clamp","varith",4,0,"clamp",'v',"x",0x2,3,{{'P',4,4,T_V,'u',0,"v"},{'F',0,0,T_S,'i',0,"minVal"},{'F',0,0,T_S,'i',0,"maxVal"}})
OP("vec4_copy","varith",4,0,"copy",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_copy3","varith",4,0,"copy3",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"a"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec4_cubic","varith",4,0,"cubic",'v',"x",0x2,2,{{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_distance","varith",4,0,"distance",'f',"x",0x2,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"}})
OP("vec4_distance2","varith",4,0,"distance2",'f',"x",0x2,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"}})
OP("vec4_div","varith",4,0,"div",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_divs","varith",4,0,"divs",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_dot","varith",4,0,"dot",'f',"x",0x2,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"}})
OP("vec4_dup","varith",4,0,"copy",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_dup3","varith",4,0,"copy3",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"a"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec4_fill","varith",4,0,"fill",'v',"x",0x2,2,{{'P',4,4,T_V,'u',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec4_flipsign","varith",4,0,"negate",'v',"x",0x2,1,{{'P',4,4,T_V,'u',0,"v"}})
OP("vec4_flipsign_to","varith",4,0,"negate_to",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_hadd","varith",4,0,"hadd",'f',"x",0x2,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_inv","varith",4,0,"negate",'v',"x",0x2,1,{{'P',4,4,T_V,'u',0,"v"}})
OP("vec4_inv_to","varith",4,0,"negate_to",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_make","varith",4,0,"make",'v',"x",0x2,2,{{'P',4,1,T_V,'i',0,"src"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_maxadd","varith",4,0,"maxadd",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_maxsub","varith",4,0,"maxsub",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_maxv","varith",4,0,"maxv",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_minadd","varith",4,0,"minadd",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_minsub","varith",4,0,"minsub",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_minv","varith",4,0,"minv",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_mul","varith",4,0,"mul",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_muladd","varith",4,0,"muladd",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_muladds","varith",4,0,"muladds",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_mulsub","varith",4,0,"mulsub",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_mulsubs","varith",4,0,"mulsubs",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_mulv","varith",4,0,"mul",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_negate","varith",4,0,"negate",'v',"x",0x2,1,{{'P',4,4,T_V,'u',0,"v"}})
OP("vec4_negate_to","varith",4,0,"negate_to",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_norm","varith",4,0,"norm",'f',"x",0x2,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_norm2","varith",4,0,"norm2",'f',"x",0x2,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_norm_inf","varith",4,0,"norm_inf",'f',"x",0x2,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_norm_one","varith",4,0,"norm_one",'f',"x",0x2,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_one","varith",4,0,"one",'v',"x",0x2,1,{{'P',4,4,T_V,'u',0,"v"}})
OP("vec4_pack","varith",4,0,"pack",'v',"x",0x2,3,{{'P',36,4,T_V,'o',0,"dest"},{'P',36,4,T_V,'i',0,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("vec4_scale","varith",4,0,"scale",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_sub","varith",4,0,"sub",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_subadd","varith",4,0,"subadd",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_subs","varith",4,0,"subs",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_subsub","varith",4,0,"subsub",'v',"x",0x2,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'u',0,"dest"}})
OP("vec4_ucopy","varith",4,0,"ucopy",'v',"x",0x2,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_unpack","varith",4,0,"unpack",'v',"x",0x2,3,{{'P',36,4,T_V,'o',0,"dest"},{'P',36,4,T_V,'i',0,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("vec4_zero","varith",4,0,"zero",'v',"x",0x2,1,{{'P',4,4,T_V,'u',0,"v"}})
OP("ivec2","ivec",2,0,"ctor",'v',"",0x4,2,{{'P',2,1,T_IV,'i',1,"v"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_abs","ivec",2,0,"abs",'v',"",0xc,2,{{'P',2,1,T_IV,'i',1,"v"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_add","ivec",2,0,"add",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_addadd","ivec",2,0,"addadd",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_addadds","ivec",2,0,"addadds",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_adds","ivec",2,0,"adds",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_addsub","ivec",2,0,"addsub",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_addsubs","ivec",2,0,"addsubs",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_clamp","ivec",2,0,"clamp",'v',"",0x4,3,{{'P',2,1,T_IV,'u',1,"v"},{'I',0,0,T_I,'i',0,"minVal"},{'I',0,0,T_I,'i',0,"maxVal"}})
OP("ivec2_copy","ivec",2,0,"copy",'v',"",0x4,2,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_cross","ivec",2,0,"cross",'i',"",0x4,2,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"}})
OP("ivec2_distance","ivec",2,0,"distance",'f',"",0x4,2,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"}})
OP("ivec2_distance2","ivec",2,0,"distance2",'i',"",0x4,2,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"}})
OP("ivec2_div","ivec",2,0,"div",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IVNZ,'i',1,"b"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_divs","ivec",2,0,"divs",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"v"},{'I',0,0,T_INZ,'i',0,"s"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_dot","ivec",2,0,"dot",'i',"",0x4,2,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"}})
OP("ivec2_eq","ivec",2,0,"eq",'b',"",0xc,2,{{'P',2,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"val"}})
OP("ivec2_eqv","ivec",2,0,"eqv",'b',"",0xc,2,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"}})
OP("ivec2_fill","ivec",2,0,"fill",'v',"",0x4,2,{{'P',2,1,T_IV,'u',1,"v"},{'I',0,0,T_I,'i',0,"val"}})
OP("ivec2_maxadd","ivec",2,0,"maxadd",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_maxsub","ivec",2,0,"maxsub",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_maxv","ivec",2,0,"maxv",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_minadd","ivec",2,0,"minadd",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_minsub","ivec",2,0,"minsub",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_minv","ivec",2,0,"minv",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_mod","ivec",2,0,"mod",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IVNZ,'i',1,"b"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_mul","ivec",2,0,"mul",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_muladd","ivec",2,0,"muladd",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_muladds","ivec",2,0,"muladds",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_mulsub","ivec",2,0,"mulsub",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_mulsubs","ivec",2,0,"mulsubs",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_one","ivec",2,0,"one",'v',"",0x4,1,{{'P',2,1,T_IV,'u',1,"v"}})
OP("ivec2_pack","ivec",2,0,"pack",'v',"",0x4,3,{{'P',18,1,T_IV,'o',1,"dest"},{'P',18,1,T_IV,'i',1,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("ivec2_scale","ivec",2,0,"scale",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_sub","ivec",2,0,"sub",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_subadd","ivec",2,0,"subadd",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_subadds","ivec",2,0,"subadds",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_subs","ivec",2,0,"subs",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'o',1,"dest"}})
OP("ivec2_subsub","ivec",2,0,"subsub",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'P',2,1,T_IV,'i',1,"b"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_subsubs","ivec",2,0,"subsubs",'v',"",0x4,3,{{'P',2,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',2,1,T_IV,'u',1,"dest"}})
OP("ivec2_unpack","ivec",2,0,"unpack",'v',"",0x4,3,{{'P',18,1,T_IV,'o',1,"dest"},{'P',18,1,T_IV,'i',1,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("ivec2_zero","ivec",2,0,"zero",'v',"",0x4,1,{{'P',2,1,T_IV,'u',1,"v"}})
OP("ivec3","ivec",3,0,"ctor",'v',"",0x4,2,{{'P',4,1,T_IV,'i',1,"v4"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_abs","ivec",3,0,"abs",'v',"",0xc,2,{{'P',3,1,T_IV,'i',1,"v"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_add","ivec",3,0,"add",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_addadd","ivec",3,0,"addadd",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_addadds","ivec",3,0,"addadds",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_adds","ivec",3,0,"adds",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_addsub","ivec",3,0,"addsub",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_addsubs","ivec",3,0,"addsubs",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_clamp","ivec",3,0,"clamp",'v',"",0x4,3,{{'P',3,1,T_IV,'u',1,"v"},{'I',0,0,T_I,'i',0,"minVal"},{'I',0,0,T_I,'i',0,"maxVal"}})
OP("ivec3_copy","ivec",3,0,"copy",'v',"",0x4,2,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_distance","ivec",3,0,"distance",'f',"",0x4,2,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"}})
OP("ivec3_distance2","ivec",3,0,"distance2",'i',"",0x4,2,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"}})
OP("ivec3_div","ivec",3,0,"div",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IVNZ,'i',1,"b"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_divs","ivec",3,0,"divs",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"v"},{'I',0,0,T_INZ,'i',0,"s"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_dot","ivec",3,0,"dot",'i',"",0x4,2,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"}})
OP("ivec3_eq","ivec",3,0,"eq",'b',"",0xc,2,{{'P',3,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"val"}})
OP("ivec3_eqv","ivec",3,0,"eqv",'b',"",0xc,2,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"}})
OP("ivec3_fill","ivec",3,0,"fill",'v',"",0x4,2,{{'P',3,1,T_IV,'u',1,"v"},{'I',0,0,T_I,'i',0,"val"}})
OP("ivec3_maxadd","ivec",3,0,"maxadd",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_maxsub","ivec",3,0,"maxsub",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_maxv","ivec",3,0,"maxv",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_minadd","ivec",3,0,"minadd",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_minsub","ivec",3,0,"minsub",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_minv","ivec",3,0,"minv",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_mod","ivec",3,0,"mod",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IVNZ,'i',1,"b"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_mul","ivec",3,0,"mul",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_muladd","ivec",3,0,"muladd",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_muladds","ivec",3,0,"muladds",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_mulsub","ivec",3,0,"mulsub",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_mulsubs","ivec",3,0,"mulsubs",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_norm","ivec",3,0,"norm",'i',"",0x4,1,{{'P',3,1,T_IV,'i',1,"v"}})
OP("ivec3_norm2","ivec",3,0,"norm2",'i',"",0x4,1,{{'P',3,1,T_IV,'i',1,"v"}})
OP("ivec3_one","ivec",3,0,"one",'v',"",0x4,1,{{'P',3,1,T_IV,'u',1,"v"}})
OP("ivec3_pack","ivec",3,0,"pack",'v',"",0x4,3,{{'P',27,1,T_IV,'o',1,"dest"},{'P',27,1,T_IV,'i',1,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("ivec3_scale","ivec",3,0,"scale",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_sub","ivec",3,0,"sub",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_subadd","ivec",3,0,"subadd",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_subadds","ivec",3,0,"subadds",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_subs","ivec",3,0,"subs",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'o',1,"dest"}})
OP("ivec3_subsub","ivec",3,0,"subsub",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'P',3,1,T_IV,'i',1,"b"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_subsubs","ivec",3,0,"subsubs",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',3,1,T_IV,'u',1,"dest"}})
OP("ivec3_unpack","ivec",3,0,"unpack",'v',"",0x4,3,{{'P',27,1,T_IV,'o',1,"dest"},{'P',27,1,T_IV,'i',1,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("ivec3_zero","ivec",3,0,"zero",'v',"",0x4,1,{{'P',3,1,T_IV,'u',1,"v"}})
OP("ivec4","ivec",4,0,"ctor",'v',"",0x4,3,{{'P',3,1,T_IV,'i',1,"v3"},{'I',0,0,T_I,'i',0,"last"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_abs","ivec",4,0,"abs",'v',"",0xc,2,{{'P',4,1,T_IV,'i',1,"v"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_add","ivec",4,0,"add",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_addadd","ivec",4,0,"addadd",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_addadds","ivec",4,0,"addadds",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_adds","ivec",4,0,"adds",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_addsub","ivec",4,0,"addsub",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_addsubs","ivec",4,0,"addsubs",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_clamp","ivec",4,0,"clamp",'v',"",0x4,3,{{'P',4,1,T_IV,'u',1,"v"},{'I',0,0,T_I,'i',0,"minVal"},{'I',0,0,T_I,'i',0,"maxVal"}})
OP("ivec4_copy","ivec",4,0,"copy",'v',"",0x4,2,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_distance","ivec",4,0,"distance",'f',"",0x4,2,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"}})
OP("ivec4_distance2","ivec",4,0,"distance2",'i',"",0x4,2,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"}})
OP("ivec4_maxadd","ivec",4,0,"maxadd",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_maxsub","ivec",4,0,"maxsub",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_maxv","ivec",4,0,"maxv",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_minadd","ivec",4,0,"minadd",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_minsub","ivec",4,0,"minsub",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_minv","ivec",4,0,"minv",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_mul","ivec",4,0,"mul",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_muladd","ivec",4,0,"muladd",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_muladds","ivec",4,0,"muladds",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_mulsub","ivec",4,0,"mulsub",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_mulsubs","ivec",4,0,"mulsubs",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_one","ivec",4,0,"one",'v',"",0x4,1,{{'P',4,1,T_IV,'u',1,"v"}})
OP("ivec4_pack","ivec",4,0,"pack",'v',"",0x4,3,{{'P',36,1,T_IV,'o',1,"dest"},{'P',36,1,T_IV,'i',1,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("ivec4_scale","ivec",4,0,"scale",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_sub","ivec",4,0,"sub",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_subadd","ivec",4,0,"subadd",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_subadds","ivec",4,0,"subadds",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_subs","ivec",4,0,"subs",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"v"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'o',1,"dest"}})
OP("ivec4_subsub","ivec",4,0,"subsub",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'P',4,1,T_IV,'i',1,"b"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_subsubs","ivec",4,0,"subsubs",'v',"",0x4,3,{{'P',4,1,T_IV,'i',1,"a"},{'I',0,0,T_I,'i',0,"s"},{'P',4,1,T_IV,'u',1,"dest"}})
OP("ivec4_unpack","ivec",4,0,"unpack",'v',"",0x4,3,{{'P',36,1,T_IV,'o',1,"dest"},{'P',36,1,T_IV,'i',1,"src"},{'I',0,0,T_CNT,'i',0,"len"}})
OP("ivec4_zero","ivec",4,0,"zero",'v',"",0x4,1,{{'P',4,1,T_IV,'u',1,"v"}})
OP("vec2_abs","vclass",2,0,"abs",'v',"x",0x8,2,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_eq","vclass",2,0,"eq",'b',"x",0x8,2,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec2_eq_all","vclass",2,0,"eq_all",'b',"x",0x8,1,{{'P',2,1,T_V,'i',0,"v"}})
OP("vec2_eq_eps","vclass",2,0,"eq_eps",'b',"x",0x8,2,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec2_eqv","vclass",2,0,"eqv",'b',"x",0x8,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"}})
OP("vec2_eqv_eps","vclass",2,0,"eqv_eps",'b',"x",0x8,2,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"}})
OP("vec2_floor","vclass",2,0,"floor",'v',"x",0x8,2,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_fract","vclass",2,0,"fract",'v',"x",0x8,2,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_isinf","vclass",2,0,"isinf",'b',"x",0x8,1,{{'P',2,1,T_V,'i',0,"v"}})
OP("vec2_isnan","vclass",2,0,"isnan",'b',"x",0x8,1,{{'P',2,1,T_V,'i',0,"v"}})
OP("vec2_isvalid","vclass",2,0,"isvalid",'b',"x",0x8,1,{{'P',2,1,T_V,'i',0,"v"}})
OP("vec2_max","vclass",2,0,"max",'f',"x",0x8,1,{{'P',2,1,T_V,'i',0,"v"}})
OP("vec2_min","vclass",2,0,"min",'f',"x",0x8,1,{{'P',2,1,T_V,'i',0,"v"}})
OP("vec2_mods","vclass",2,0,"mods",'v',"x",0x8,3,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_sign","vclass",2,0,"sign",'v',"x",0x8,2,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_sqrt","vclass",2,0,"sqrt",'v',"x",0x8,2,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_step","vclass",2,0,"step",'v',"x",0x18,3,{{'P',2,1,T_V,'i',0,"edge"},{'P',2,1,T_V,'i',0,"x"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_stepr","vclass",2,0,"stepr",'v',"x",0x18,3,{{'P',2,1,T_V,'i',0,"edge"},{'F',0,0,T_S,'i',0,"x"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_steps","vclass",2,0,"steps",'v',"x",0x18,3,{{'F',0,0,T_S,'i',0,"edge"},{'P',2,1,T_V,'i',0,"x"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_swizzle","vclass",2,0,"swizzle",'v',"x",0x8,3,{{'P',2,1,T_V,'i',0,"v"},{'I',0,0,T_MASK2,'i',0,"mask"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec3_abs","vclass",3,0,"abs",'v',"x",0x8,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_eq","vclass",3,0,"eq",'b',"x",0x8,2,{{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec3_eq_all","vclass",3,0,"eq_all",'b',"x",0x8,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_eq_eps","vclass",3,0,"eq_eps",'b',"x",0x8,2,{{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec3_eqv","vclass",3,0,"eqv",'b',"x",0x8,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"}})
OP("vec3_eqv_eps","vclass",3,0,"eqv_eps",'b',"x",0x8,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"}})
OP("vec3_floor","vclass",3,0,"floor",'v',"x",0x8,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_fract","vclass",3,0,"fract",'v',"x",0x8,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_isinf","vclass",3,0,"isinf",'b',"x",0x8,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_isnan","vclass",3,0,"isnan",'b',"x",0x8,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_isvalid","vclass",3,0,"isvalid",'b',"x",0x8,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_max","vclass",3,0,"max",'f',"x",0x8,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_min","vclass",3,0,"min",'f',"x",0x8,1,{{'P',3,1,T_V,'i',0,"v"}})
OP("vec3_mods","vclass",3,0,"mods",'v',"x",0x8,3,{{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_sign","vclass",3,0,"sign",'v',"x",0x8,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_sqrt","vclass",3,0,"sqrt",'v',"x",0x8,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_step","vclass",3,0,"step",'v',"x",0x18,3,{{'P',3,1,T_V,'i',0,"edge"},{'P',3,1,T_V,'i',0,"x"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_step_uni","vclass",3,0,"steps",'v',"x",0x18,3,{{'F',0,0,T_S,'i',0,"edge"},{'P',3,1,T_V,'i',0,"x"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_stepr","vclass",3,0,"stepr",'v',"x",0x18,3,{{'P',3,1,T_V,'i',0,"edge"},{'F',0,0,T_S,'i',0,"x"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_steps","vclass",3,0,"steps",'v',"x",0x18,3,{{'F',0,0,T_S,'i',0,"edge"},{'P',3,1,T_V,'i',0,"x"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_swizzle","vclass",3,0,"swizzle",'v',"x",0x8,3,{{'P',3,1,T_V,'i',0,"v"},{'I',0,0,T_MASK3,'i',0,"mask"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec4_abs","vclass",4,0,"abs",'v',"x",0x8,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_eq","vclass",4,0,"eq",'b',"x",0x8,2,{{'P',4,4,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec4_eq_all","vclass",4,0,"eq_all",'b',"x",0x8,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_eq_eps","vclass",4,0,"eq_eps",'b',"x",0x8,2,{{'P',4,4,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"val"}})
OP("vec4_eqv","vclass",4,0,"eqv",'b',"x",0x8,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"}})
OP("vec4_eqv_eps","vclass",4,0,"eqv_eps",'b',"x",0x8,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"}})
OP("vec4_floor","vclass",4,0,"floor",'v',"x",0x8,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_fract","vclass",4,0,"fract",'v',"x",0x8,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_isinf","vclass",4,0,"isinf",'b',"x",0x8,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_isnan","vclass",4,0,"isnan",'b',"x",0x8,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_isvalid","vclass",4,0,"isvalid",'b',"x",0x8,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_max","vclass",4,0,"max",'f',"x",0x8,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_min","vclass",4,0,"min",'f',"x",0x8,1,{{'P',4,4,T_V,'i',0,"v"}})
OP("vec4_mods","vclass",4,0,"mods",'v',"x",0x8,3,{{'P',4,4,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_sign","vclass",4,0,"sign",'v',"x",0x8,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_sqrt","vclass",4,0,"sqrt",'v',"x",0x8,2,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_step","vclass",4,0,"step",'v',"x",0x18,3,{{'P',4,4,T_V,'i',0,"edge"},{'P',4,4,T_V,'i',0,"x"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_step_uni","vclass",4,0,"steps",'v',"x",0x18,3,{{'F',0,0,T_S,'i',0,"edge"},{'P',4,4,T_V,'i',0,"x"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_stepr","vclass",4,0,"stepr",'v',"x",0x18,3,{{'P',4,4,T_V,'i',0,"edge"},{'F',0,0,T_S,'i',0,"x"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_steps","vclass",4,0,"steps",'v',"x",0x18,3,{{'F',0,0,T_S,'i',0,"edge"},{'P',4,4,T_V,'i',0,"x"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_swizzle","vclass",4,0,"swizzle",'v',"x",0x8,3,{{'P',4,4,T_V,'i',0,"v"},{'I',0,0,T_MASK4,'i',0,"mask"},{'P',4,4,T_V,'o',0,"dest"}})
OP("clamp","util",0,0,"clamp",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"val"},{'F',0,0,T_S,'i',0,"minVal"},{'F',0,0,T_S,'i',0,"maxVal"}})
OP("clamp_zo","util",0,0,"clamp_zo",'f',"",0x10,1,{{'F',0,0,T_S,'i',0,"val"}})
OP("deg","util",0,0,"deg",'f',"",0x10,1,{{'F',0,0,T_S,'i',0,"rad"}})
OP("eq","util",0,0,"eq",'b',"",0x10,2,{{'F',0,0,T_S,'i',0,"a"},{'F',0,0,T_S,'i',0,"b"}})
OP("imax","util",0,0,"imax",'i',"",0x10,2,{{'I',0,0,T_I,'i',0,"a"},{'I',0,0,T_I,'i',0,"b"}})
OP("imin","util",0,0,"imin",'i',"",0x10,2,{{'I',0,0,T_I,'i',0,"a"},{'I',0,0,T_I,'i',0,"b"}})
OP("lerp","util",0,0,"lerp",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"from"},{'F',0,0,T_S,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"}})
OP("lerpc","util",0,0,"lerpc",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"from"},{'F',0,0,T_S,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"}})
OP("luminance","util",0,0,"luminance",'f',"",0x10,1,{{'P',3,1,T_V,'i',0,"rgb"}})
OP("make_deg","util",0,0,"make_deg",'v',"",0x10,1,{{'P',1,1,T_V,'u',0,"rad"}})
OP("make_rad","util",0,0,"make_rad",'v',"",0x10,1,{{'P',1,1,T_V,'u',0,"deg"}})
OP("max","util",0,0,"max",'f',"",0x10,2,{{'F',0,0,T_S,'i',0,"a"},{'F',0,0,T_S,'i',0,"b"}})
OP("min","util",0,0,"min",'f',"",0x10,2,{{'F',0,0,T_S,'i',0,"a"},{'F',0,0,T_S,'i',0,"b"}})
OP("percent","util",0,0,"percent",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"from"},{'F',0,0,T_S,'i',0,"to"},{'F',0,0,T_S,'i',0,"current"}})
OP("percentc","util",0,0,"percentc",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"from"},{'F',0,0,T_S,'i',0,"to"},{'F',0,0,T_S,'i',0,"current"}})
OP("pow2","util",0,0,"pow2",'f',"",0x10,1,{{'F',0,0,T_S,'i',0,"x"}})
OP("rad","util",0,0,"rad",'f',"",0x10,1,{{'F',0,0,T_S,'i',0,"deg"}})
OP("sign","util",0,0,"sign",'i',"",0x10,1,{{'I',0,0,T_I,'i',0,"val"}})
OP("signf","util",0,0,"signf",'f',"",0x10,1,{{'F',0,0,T_S,'i',0,"val"}})
OP("smooth","util",0,0,"smooth",'f',"",0x10,1,{{'F',0,0,T_T,'i',0,"t"}})
OP("smoothinterp","util",0,0,"smoothinterp",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"from"},{'F',0,0,T_S,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"}})
OP("smoothinterpc","util",0,0,"smoothinterpc",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"from"},{'F',0,0,T_S,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"}})
OP("smoothstep","util",0,0,"smoothstep",'f',"",0x10,3,{{'F',0,0,T_S,'i',0,"edge0"},{'F',0,0,T_S,'i',0,"edge1"},{'F',0,0,T_S,'i',0,"x"}})
OP("step","util",0,0,"step",'f',"",0x10,2,{{'F',0,0,T_S,'i',0,"edge"},{'F',0,0,T_S,'i',0,"x"}})
OP("swapf","util",0,0,"swapf",'v',"",0x10,2,{{'P',1,1,T_V,'u',0,"a"},{'P',1,1,T_V,'u',0,"b"}})
OP("vec2_lerp","vinterp",2,0,"lerp",'v',"",0x10,4,{{'P',2,1,T_V,'i',0,"from"},{'P',2,1,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec3_lerp","vinterp",3,0,"lerp",'v',"",0x10,4,{{'P',3,1,T_V,'i',0,"from"},{'P',3,1,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_lerpc","vinterp",3,0,"lerpc",'v',"",0x10,4,{{'P',3,1,T_V,'i',0,"from"},{'P',3,1,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_mix","vinterp",3,0,"mix",'v',"",0x10,4,{{'P',3,1,T_V,'i',0,"from"},{'P',3,1,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_mixc","vinterp",3,0,"mixc",'v',"",0x10,4,{{'P',3,1,T_V,'i',0,"from"},{'P',3,1,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_smoothinterp","vinterp",3,0,"smoothinterp",'v',"",0x10,4,{{'P',3,1,T_V,'i',0,"from"},{'P',3,1,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_smoothinterpc","vinterp",3,0,"smoothinterpc",'v',"",0x10,4,{{'P',3,1,T_V,'i',0,"from"},{'P',3,1,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_smoothstep","vinterp",3,0,"smoothstep",'v',"",0x10,4,{{'P',3,1,T_V,'i',0,"edge0"},{'P',3,1,T_V,'i',0,"edge1"},{'P',3,1,T_V,'i',0,"x"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_smoothstep_uni","vinterp",3,0,"smoothstep_uni",'v',"",0x10,4,{{'F',0,0,T_S,'i',0,"edge0"},{'F',0,0,T_S,'i',0,"edge1"},{'P',3,1,T_V,'i',0,"x"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec4_lerp","vinterp",4,0,"lerp",'v',"",0x10,4,{{'P',4,4,T_V,'i',0,"from"},{'P',4,4,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_lerpc","vinterp",4,0,"lerpc",'v',"",0x10,4,{{'P',4,4,T_V,'i',0,"from"},{'P',4,4,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_mix","vinterp",4,0,"mix",'v',"",0x10,4,{{'P',4,4,T_V,'i',0,"from"},{'P',4,4,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_mixc","vinterp",4,0,"mixc",'v',"",0x10,4,{{'P',4,4,T_V,'i',0,"from"},{'P',4,4,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_smoothinterp","vinterp",4,0,"smoothinterp",'v',"",0x10,4,{{'P',4,4,T_V,'i',0,"from"},{'P',4,4,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_smoothinterpc","vinterp",4,0,"smoothinterpc",'v',"",0x10,4,{{'P',4,4,T_V,'i',0,"from"},{'P',4,4,T_V,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_smoothstep","vinterp",4,0,"smoothstep",'v',"",0x10,4,{{'P',4,4,T_V,'i',0,"edge0"},{'P',4,4,T_V,'i',0,"edge1"},{'P',4,4,T_V,'i',0,"x"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_smoothstep_uni","vinterp",4,0,"smoothstep_uni",'v',"",0x10,4,{{'F',0,0,T_S,'i',0,"edge0"},{'F',0,0,T_S,'i',0,"edge1"},{'P',4,4,T_V,'i',0,"x"},{'P',4,4,T_V,'o',0,"dest"}})
OP("normalize","vgeom",3,0,"normalize",'v',"",0x20,1,{{'P',3,1,T_VZ,'u',0,"v"}})
OP("normalize_to","vgeom",3,0,"normalize_to",'v',"",0x20,2,{{'P',3,1,T_VZ,'i',0,"v"},{'P',3,1,T_VZ,'o',0,"dest"}})
OP("vec2_center","vgeom",2,0,"center",'v',"",0x20,3,{{'P',2,1,T_V,'i',0,"a"},{'P',2,1,T_V,'i',0,"b"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_normalize","vgeom",2,0,"normalize",'v',"",0x20,1,{{'P',2,1,T_VZ,'u',0,"v"}})
OP("vec2_normalize_to","vgeom",2,0,"normalize_to",'v',"",0x20,2,{{'P',2,1,T_VZ,'i',0,"v"},{'P',2,1,T_VZ,'o',0,"dest"}})
OP("vec2_reflect","vgeom",2,0,"reflect",'v',"",0x20,3,{{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_UNITM,'i',0,"n"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_refract","vgeom",2,0,"refract",'b',"",0x20,4,{{'P',2,1,T_UNITM,'i',0,"v"},{'P',2,1,T_UNITM,'i',0,"n"},{'F',0,0,T_ETA,'i',0,"eta"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_rotate","vgeom",2,0,"rotate",'v',"",0x20,3,{{'P',2,1,T_V,'i',0,"v"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',2,1,T_V,'o',0,"dest"}})
OP("vec2_scale_as","vgeom",2,0,"scale_as",'v',"",0x20,3,{{'P',2,1,T_VZ,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',2,1,T_VZ,'o',0,"dest"}})
OP("vec3_angle","vgeom",3,0,"angle",'f',"",0x20,2,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"}})
OP("vec3_center","vgeom",3,0,"center",'v',"",0x20,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_crossn","vgeom",3,0,"crossn",'v',"",0x20,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_faceforward","vgeom",3,0,"faceforward",'v',"",0x20,4,{{'P',3,1,T_V,'i',0,"n"},{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'i',0,"nref"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_normalize","vgeom",3,0,"normalize",'v',"",0x20,1,{{'P',3,1,T_VZ,'u',0,"v"}})
OP("vec3_normalize_to","vgeom",3,0,"normalize_to",'v',"",0x20,2,{{'P',3,1,T_VZ,'i',0,"v"},{'P',3,1,T_VZ,'o',0,"dest"}})
OP("vec3_ortho","vgeom",3,0,"ortho",'v',"",0x20,2,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_proj","vgeom",3,0,"proj",'v',"",0x20,3,{{'P',3,1,T_V,'i',0,"a"},{'P',3,1,T_V,'i',0,"b"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_reflect","vgeom",3,0,"reflect",'v',"",0x20,3,{{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_UNITM,'i',0,"n"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_refract","vgeom",3,0,"refract",'b',"",0x20,4,{{'P',3,1,T_UNITM,'i',0,"v"},{'P',3,1,T_UNITM,'i',0,"n"},{'F',0,0,T_ETA,'i',0,"eta"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_rotate","vgeom",3,0,"rotate",'v',"",0x20,3,{{'P',3,1,T_V,'u',0,"v"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("vec3_rotate_m3","vgeom",3,0,"rotate_m3",'v',"",0x20,3,{{'P',9,1,T_TRS3,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_rotate_m4","vgeom",3,0,"rotate_m4",'v',"",0x20,3,{{'P',16,8,T_TRS,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("vec3_scale_as","vgeom",3,0,"scale_as",'v',"",0x20,3,{{'P',3,1,T_VZ,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',3,1,T_VZ,'o',0,"dest"}})
OP("vec4_normalize","vgeom",4,0,"normalize",'v',"",0x20,1,{{'P',4,4,T_VZ,'u',0,"v"}})
OP("vec4_normalize_to","vgeom",4,0,"normalize_to",'v',"",0x20,2,{{'P',4,4,T_VZ,'i',0,"v"},{'P',4,4,T_VZ,'o',0,"dest"}})
OP("vec4_reflect","vgeom",4,0,"reflect",'v',"",0x20,3,{{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_UNITM,'i',0,"n"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_refract","vgeom",4,0,"refract",'b',"",0x20,4,{{'P',4,4,T_UNITM,'i',0,"v"},{'P',4,4,T_UNITM,'i',0,"n"},{'F',0,0,T_ETA,'i',0,"eta"},{'P',4,4,T_V,'o',0,"dest"}})
OP("vec4_scale_as","vgeom",4,0,"scale_as",'v',"",0x20,3,{{'P',4,4,T_VZ,'i',0,"v"},{'F',0,0,T_S,'i',0,"s"},{'P',4,4,T_VZ,'o',0,"dest"}})
OP("mat2_copy","mat",2,2,"copy",'v',"",0x40,2,{{'P',4,4,T_V,'i',0,"mat"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat2_identity","mat",2,2,"identity",'v',"",0x40,1,{{'P',4,4,T_V,'u',0,"m"}})
OP("mat2_identity_array","mat",2,2,"identity_array",'v',"",0x40,2,{{'P',36,4,T_V,'u',0,"mats"},{'I',0,0,T_CNT,'i',0,"count"}})
OP("mat2_make","mat",2,2,"make",'v',"",0x40,2,{{'P',4,1,T_V,'i',0,"src"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat2_mul","mat",2,2,"mul",'v',"",0x40,3,{{'P',4,4,T_V,'i',0,"m1"},{'P',4,4,T_V,'i',0,"m2"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat2_mulv","mat",2,2,"mulv",'v',"",0x40,3,{{'P',4,4,T_V,'i',0,"m"},{'P',2,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("mat2_rmc","mat",2,2,"rmc",'f',"",0x40,3,{{'P',2,1,T_V,'i',0,"r"},{'P',4,4,T_V,'i',0,"m"},{'P',2,1,T_V,'i',0,"c"}})
OP("mat2_scale","mat",2,2,"scale",'v',"",0x40,2,{{'P',4,4,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat2_swap_col","mat",2,2,"swap_col",'v',"",0x40,3,{{'P',4,4,T_V,'u',0,"mat"},{'I',0,0,T_IDX2,'i',0,"col1"},{'I',0,0,T_IDX2,'i',0,"col2"}})
OP("mat2_swap_row","mat",2,2,"swap_row",'v',"",0x40,3,{{'P',4,4,T_V,'u',0,"mat"},{'I',0,0,T_IDX2,'i',0,"row1"},{'I',0,0,T_IDX2,'i',0,"row2"}})
OP("mat2_trace","mat",2,2,"trace",'f',"",0x40,1,{{'P',4,4,T_V,'i',0,"m"}})
OP("mat2_transpose","mat",2,2,"transpose",'v',"",0x40,1,{{'P',4,4,T_V,'u',0,"m"}})
OP("mat2_transpose_to","mat",2,2,"transpose_to",'v',"",0x40,2,{{'P',4,4,T_V,'i',0,"mat"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat2_zero","mat",2,2,"zero",'v',"",0x40,1,{{'P',4,4,T_V,'u',0,"m"}})
OP("mat2x3_copy","mat",2,3,"copy",'v',"",0x40,2,{{'P',6,1,T_V,'i',0,"src"},{'P',6,1,T_V,'o',0,"dest"}})
OP("mat2x3_make","mat",2,3,"make",'v',"",0x40,2,{{'P',6,1,T_V,'i',0,"src"},{'P',6,1,T_V,'o',0,"dest"}})
OP("mat2x3_mul","mat",2,3,"mul",'v',"",0x40,3,{{'P',6,1,T_V,'i',0,"m1"},{'P',6,1,T_V,'i',0,"m2"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat2x3_mulv","mat",2,3,"mulv",'v',"",0x40,3,{{'P',6,1,T_V,'i',0,"m"},{'P',2,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("mat2x3_scale","mat",2,3,"scale",'v',"",0x40,2,{{'P',6,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat2x3_transpose","mat",2,3,"transpose",'v',"",0x40,2,{{'P',6,1,T_V,'i',0,"src"},{'P',6,1,T_V,'o',0,"dest"}})
OP("mat2x3_zero","mat",2,3,"zero",'v',"",0x40,1,{{'P',6,1,T_V,'u',0,"m"}})
OP("mat2x4_copy","mat",2,4,"copy",'v',"",0x40,2,{{'P',8,4,T_V,'i',0,"src"},{'P',8,4,T_V,'o',0,"dest"}})
OP("mat2x4_make","mat",2,4,"make",'v',"",0x40,2,{{'P',8,1,T_V,'i',0,"src"},{'P',8,4,T_V,'o',0,"dest"}})
OP("mat2x4_mul","mat",2,4,"mul",'v',"",0x40,3,{{'P',8,4,T_V,'i',0,"m1"},{'P',8,1,T_V,'i',0,"m2"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat2x4_mulv","mat",2,4,"mulv",'v',"",0x40,3,{{'P',8,4,T_V,'i',0,"m"},{'P',2,1,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat2x4_scale","mat",2,4,"scale",'v',"",0x40,2,{{'P',8,4,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat2x4_transpose","mat",2,4,"transpose",'v',"",0x40,2,{{'P',8,4,T_V,'i',0,"src"},{'P',8,1,T_V,'o',0,"dest"}})
OP("mat2x4_zero","mat",2,4,"zero",'v',"",0x40,1,{{'P',8,4,T_V,'u',0,"m"}})
OP("mat3_copy","mat",3,3,"copy",'v',"",0x40,2,{{'P',9,1,T_V,'i',0,"mat"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat3_dup","mat",3,3,"copy",'v',"",0x40,2,{{'P',9,1,T_V,'i',0,"mat"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat3_identity","mat",3,3,"identity",'v',"",0x40,1,{{'P',9,1,T_V,'u',0,"mat"}})
OP("mat3_identity_array","mat",3,3,"identity_array",'v',"",0x40,2,{{'P',63,1,T_V,'u',0,"mat"},{'I',0,0,T_CNT,'i',0,"count"}})
OP("mat3_make","mat",3,3,"make",'v',"",0x40,2,{{'P',9,1,T_V,'i',0,"src"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat3_mul","mat",3,3,"mul",'v',"",0x40,3,{{'P',9,1,T_V,'i',0,"m1"},{'P',9,1,T_V,'i',0,"m2"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat3_mulv","mat",3,3,"mulv",'v',"",0x40,3,{{'P',9,1,T_V,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("mat3_rmc","mat",3,3,"rmc",'f',"",0x40,3,{{'P',3,1,T_V,'i',0,"r"},{'P',9,1,T_V,'i',0,"m"},{'P',3,1,T_V,'i',0,"c"}})
OP("mat3_scale","mat",3,3,"scale",'v',"",0x40,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat3_swap_col","mat",3,3,"swap_col",'v',"",0x40,3,{{'P',9,1,T_V,'u',0,"mat"},{'I',0,0,T_IDX3,'i',0,"col1"},{'I',0,0,T_IDX3,'i',0,"col2"}})
OP("mat3_swap_row","mat",3,3,"swap_row",'v',"",0x40,3,{{'P',9,1,T_V,'u',0,"mat"},{'I',0,0,T_IDX3,'i',0,"row1"},{'I',0,0,T_IDX3,'i',0,"row2"}})
OP("mat3_trace","mat",3,3,"trace",'f',"",0x40,1,{{'P',9,1,T_V,'i',0,"m"}})
OP("mat3_transpose","mat",3,3,"transpose",'v',"",0x40,1,{{'P',9,1,T_V,'u',0,"m"}})
OP("mat3_transpose_to","mat",3,3,"transpose_to",'v',"",0x40,2,{{'P',9,1,T_V,'i',0,"m"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat3_zero","mat",3,3,"zero",'v',"",0x40,1,{{'P',9,1,T_V,'u',0,"mat"}})
OP("mat3x2_copy","mat",3,2,"copy",'v',"",0x40,2,{{'P',6,1,T_V,'i',0,"src"},{'P',6,1,T_V,'o',0,"dest"}})
OP("mat3x2_make","mat",3,2,"make",'v',"",0x40,2,{{'P',6,1,T_V,'i',0,"src"},{'P',6,1,T_V,'o',0,"dest"}})
OP("mat3x2_mul","mat",3,2,"mul",'v',"",0x40,3,{{'P',6,1,T_V,'i',0,"m1"},{'P',6,1,T_V,'i',0,"m2"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat3x2_mulv","mat",3,2,"mulv",'v',"",0x40,3,{{'P',6,1,T_V,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("mat3x2_scale","mat",3,2,"scale",'v',"",0x40,2,{{'P',6,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat3x2_transpose","mat",3,2,"transpose",'v',"",0x40,2,{{'P',6,1,T_V,'i',0,"src"},{'P',6,1,T_V,'o',0,"dest"}})
OP("mat3x2_zero","mat",3,2,"zero",'v',"",0x40,1,{{'P',6,1,T_V,'u',0,"m"}})
OP("mat3x4_copy","mat",3,4,"copy",'v',"",0x40,2,{{'P',12,4,T_V,'i',0,"src"},{'P',12,4,T_V,'o',0,"dest"}})
OP("mat3x4_make","mat",3,4,"make",'v',"",0x40,2,{{'P',12,1,T_V,'i',0,"src"},{'P',12,4,T_V,'o',0,"dest"}})
OP("mat3x4_mul","mat",3,4,"mul",'v',"",0x40,3,{{'P',12,4,T_V,'i',0,"m1"},{'P',12,1,T_V,'i',0,"m2"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat3x4_mulv","mat",3,4,"mulv",'v',"",0x40,3,{{'P',12,4,T_V,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat3x4_scale","mat",3,4,"scale",'v',"",0x40,2,{{'P',12,4,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat3x4_transpose","mat",3,4,"transpose",'v',"",0x40,2,{{'P',12,4,T_V,'i',0,"src"},{'P',12,1,T_V,'o',0,"dest"}})
OP("mat3x4_zero","mat",3,4,"zero",'v',"",0x40,1,{{'P',12,4,T_V,'u',0,"m"}})
OP("mat4_copy","mat",4,4,"copy",'v',"",0x40,2,{{'P',16,8,T_V,'i',0,"mat"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_dup","mat",4,4,"copy",'v',"",0x40,2,{{'P',16,8,T_V,'i',0,"mat"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_identity","mat",4,4,"identity",'v',"",0x40,1,{{'P',16,8,T_V,'u',0,"mat"}})
OP("mat4_identity_array","mat",4,4,"identity_array",'v',"",0x40,2,{{'P',80,8,T_V,'u',0,"mat"},{'I',0,0,T_CNT,'i',0,"count"}})
OP("mat4_ins3","mat",4,4,"ins3",'v',"",0x40,2,{{'P',9,1,T_V,'i',0,"mat"},{'P',16,8,T_V,'u',0,"dest"}})
OP("mat4_make","mat",4,4,"make",'v',"",0x40,2,{{'P',16,1,T_V,'i',0,"src"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_mul","mat",4,4,"mul",'v',"",0x40,3,{{'P',16,8,T_V,'i',0,"m1"},{'P',16,8,T_V,'i',0,"m2"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_mulN","mat",4,4,"mulN",'v',"",0x40,3,{{'P',64,8,T_V,'i',0,"matrices"},{'I',0,0,T_CNT,'i',0,"len"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_mulv","mat",4,4,"mulv",'v',"",0x40,3,{{'P',16,8,T_V,'i',0,"m"},{'P',4,4,T_V,'i',0,"v"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat4_mulv3","mat",4,4,"mulv3",'v',"",0x40,4,{{'P',16,8,T_V,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'F',0,0,T_S,'i',0,"last"},{'P',3,1,T_V,'o',0,"dest"}})
OP("mat4_pick3","mat",4,4,"pick3",'v',"",0x40,2,{{'P',16,8,T_V,'i',0,"mat"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat4_pick3t","mat",4,4,"pick3t",'v',"",0x40,2,{{'P',16,8,T_V,'i',0,"mat"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat4_rmc","mat",4,4,"rmc",'f',"",0x40,3,{{'P',4,4,T_V,'i',0,"r"},{'P',16,8,T_V,'i',0,"m"},{'P',4,4,T_V,'i',0,"c"}})
OP("mat4_scale","mat",4,4,"scale",'v',"",0x40,2,{{'P',16,8,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat4_scale_p","mat",4,4,"scale_p",'v',"",0x40,2,{{'P',16,8,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat4_swap_col","mat",4,4,"swap_col",'v',"",0x40,3,{{'P',16,8,T_V,'u',0,"mat"},{'I',0,0,T_IDX4,'i',0,"col1"},{'I',0,0,T_IDX4,'i',0,"col2"}})
OP("mat4_swap_row","mat",4,4,"swap_row",'v',"",0x40,3,{{'P',16,8,T_V,'u',0,"mat"},{'I',0,0,T_IDX4,'i',0,"row1"},{'I',0,0,T_IDX4,'i',0,"row2"}})
OP("mat4_trace","mat",4,4,"trace",'f',"",0x40,1,{{'P',16,8,T_V,'i',0,"m"}})
OP("mat4_trace3","mat",4,4,"trace3",'f',"",0x40,1,{{'P',16,8,T_V,'i',0,"m"}})
OP("mat4_transpose","mat",4,4,"transpose",'v',"",0x40,1,{{'P',16,8,T_V,'u',0,"m"}})
OP("mat4_transpose_to","mat",4,4,"transpose_to",'v',"",0x40,2,{{'P',16,8,T_V,'i',0,"m"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_ucopy","mat",4,4,"ucopy",'v',"",0x40,2,{{'P',16,8,T_V,'i',0,"mat"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_udup","mat",4,4,"ucopy",'v',"",0x40,2,{{'P',16,8,T_V,'i',0,"mat"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_zero","mat",4,4,"zero",'v',"",0x40,1,{{'P',16,8,T_V,'u',0,"mat"}})
OP("mat4x2_copy","mat",4,2,"copy",'v',"",0x40,2,{{'P',8,1,T_V,'i',0,"src"},{'P',8,1,T_V,'o',0,"dest"}})
OP("mat4x2_make","mat",4,2,"make",'v',"",0x40,2,{{'P',8,1,T_V,'i',0,"src"},{'P',8,1,T_V,'o',0,"dest"}})
OP("mat4x2_mul","mat",4,2,"mul",'v',"",0x40,3,{{'P',8,1,T_V,'i',0,"m1"},{'P',8,4,T_V,'i',0,"m2"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat4x2_mulv","mat",4,2,"mulv",'v',"",0x40,3,{{'P',8,1,T_V,'i',0,"m"},{'P',4,4,T_V,'i',0,"v"},{'P',2,1,T_V,'o',0,"dest"}})
OP("mat4x2_scale","mat",4,2,"scale",'v',"",0x40,2,{{'P',8,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat4x2_transpose","mat",4,2,"transpose",'v',"",0x40,2,{{'P',8,1,T_V,'i',0,"m"},{'P',8,4,T_V,'o',0,"dest"}})
OP("mat4x2_zero","mat",4,2,"zero",'v',"",0x40,1,{{'P',8,1,T_V,'u',0,"m"}})
OP("mat4x3_copy","mat",4,3,"copy",'v',"",0x40,2,{{'P',12,1,T_V,'i',0,"src"},{'P',12,1,T_V,'o',0,"dest"}})
OP("mat4x3_make","mat",4,3,"make",'v',"",0x40,2,{{'P',12,1,T_V,'i',0,"src"},{'P',12,1,T_V,'o',0,"dest"}})
OP("mat4x3_mul","mat",4,3,"mul",'v',"",0x40,3,{{'P',12,1,T_V,'i',0,"m1"},{'P',12,4,T_V,'i',0,"m2"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat4x3_mulv","mat",4,3,"mulv",'v',"",0x40,3,{{'P',12,1,T_V,'i',0,"m"},{'P',4,4,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("mat4x3_scale","mat",4,3,"scale",'v',"",0x40,2,{{'P',12,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("mat4x3_transpose","mat",4,3,"transpose",'v',"",0x40,2,{{'P',12,1,T_V,'i',0,"src"},{'P',12,4,T_V,'o',0,"dest"}})
OP("mat4x3_zero","mat",4,3,"zero",'v',"",0x40,1,{{'P',12,1,T_V,'u',0,"m"}})
OP("mat2_det","matinv",2,2,"det",'f',"",0x80,1,{{'P',4,4,T_INV2,'i',0,"m"}})
OP("mat2_inv","matinv",2,2,"inv",'v',"",0x80,2,{{'P',4,4,T_INV2,'i',0,"mat"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat3_det","matinv",3,3,"det",'f',"",0x80,1,{{'P',9,1,T_INV3,'i',0,"mat"}})
OP("mat3_inv","matinv",3,3,"inv",'v',"",0x80,2,{{'P',9,1,T_INV3,'i',0,"mat"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat4_det","matinv",4,4,"det",'f',"",0x80,1,{{'P',16,8,T_INV4,'i',0,"mat"}})
OP("mat4_inv","matinv",4,4,"inv",'v',"",0x80,2,{{'P',16,8,T_INV4,'i',0,"mat"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_inv_fast","matinv",4,4,"inv_fast",'v',"",0x80,2,{{'P',16,8,T_INV4,'i',0,"mat"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mat4_inv_precise","matinv",4,4,"inv",'v',"",0x80,2,{{'P',16,8,T_INV4,'i',0,"mat"},{'P',16,8,T_V,'o',0,"dest"}})
OP("decompose","aff",4,0,"decompose",'v',"",0x100,4,{{'P',16,8,T_TRS,'i',0,"m"},{'P',4,4,T_V,'o',0,"t"},{'P',16,8,T_V,'o',0,"r"},{'P',3,1,T_V,'o',0,"s"}})
OP("decompose_rs","aff",4,0,"decompose_rs",'v',"",0x100,3,{{'P',16,8,T_TRS,'i',0,"m"},{'P',16,8,T_V,'o',0,"r"},{'P',3,1,T_V,'o',0,"s"}})
OP("decompose_scalev","aff",4,0,"decompose_scalev",'v',"",0x100,2,{{'P',16,8,T_TRS,'i',0,"m"},{'P',3,1,T_V,'o',0,"s"}})
OP("inv_tr","aff",4,0,"inv_tr",'v',"",0x100,1,{{'P',16,8,T_RIGID,'u',0,"mat"}})
OP("mul","aff",4,0,"mul",'v',"",0x100,3,{{'P',16,8,T_AFF,'i',0,"m1"},{'P',16,8,T_AFF,'i',0,"m2"},{'P',16,8,T_V,'o',0,"dest"}})
OP("mul_rot","aff",4,0,"mul_rot",'v',"",0x100,3,{{'P',16,8,T_AFF,'i',0,"m1"},{'P',16,8,T_ROTM,'i',0,"m2"},{'P',16,8,T_V,'o',0,"dest"}})
OP("rotate","aff",4,0,"rotate",'v',"",0x100,3,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("rotate_at","aff",4,0,"rotate_at",'v',"",0x100,4,{{'P',16,8,T_AFFM,'u',0,"m"},{'P',3,1,T_V,'i',0,"pivot"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("rotate_atm","aff",4,0,"rotate_atm",'v',"",0x100,4,{{'P',16,8,T_AFFM,'u',0,"m"},{'P',3,1,T_V,'i',0,"pivot"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("rotate_make","aff",4,0,"rotate_make",'v',"",0x100,3,{{'P',16,8,T_V,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("rotate_x","aff",4,0,"rotate_x",'v',"",0x100,3,{{'P',16,8,T_AFFM,'i',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',16,8,T_V,'o',0,"dest"}})
OP("rotate_y","aff",4,0,"rotate_y",'v',"",0x100,3,{{'P',16,8,T_AFFM,'i',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',16,8,T_V,'o',0,"dest"}})
OP("rotate_z","aff",4,0,"rotate_z",'v',"",0x100,3,{{'P',16,8,T_AFFM,'i',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',16,8,T_V,'o',0,"dest"}})
OP("rotated","aff",4,0,"rotated",'v',"",0x100,3,{{'P',16,8,T_AFF,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("rotated_at","aff",4,0,"rotated_at",'v',"",0x100,4,{{'P',16,8,T_AFF,'u',0,"m"},{'P',3,1,T_V,'i',0,"pivot"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("rotated_x","aff",4,0,"rotated_x",'v',"",0x100,3,{{'P',16,8,T_AFF,'i',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',16,8,T_V,'o',0,"dest"}})
OP("rotated_y","aff",4,0,"rotated_y",'v',"",0x100,3,{{'P',16,8,T_AFF,'i',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',16,8,T_V,'o',0,"dest"}})
OP("rotated_z","aff",4,0,"rotated_z",'v',"",0x100,3,{{'P',16,8,T_AFF,'i',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',16,8,T_V,'o',0,"dest"}})
OP("scale","aff",4,0,"scale",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'P',3,1,T_V,'i',0,"v"}})
OP("scale_make","aff",4,0,"scale_make",'v',"",0x100,2,{{'P',16,8,T_V,'u',0,"m"},{'P',3,1,T_V,'i',0,"v"}})
OP("scale_to","aff",4,0,"scale_to",'v',"",0x100,3,{{'P',16,8,T_AFFM,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',16,8,T_V,'o',0,"dest"}})
OP("scale_uni","aff",4,0,"scale_uni",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("spin","aff",4,0,"spin",'v',"",0x100,3,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("spinned","aff",4,0,"spinned",'v',"",0x100,3,{{'P',16,8,T_AFF,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("translate","aff",4,0,"translate",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'P',3,1,T_V,'i',0,"v"}})
OP("translate_make","aff",4,0,"translate_make",'v',"",0x100,2,{{'P',16,8,T_V,'u',0,"m"},{'P',3,1,T_V,'i',0,"v"}})
OP("translate_to","aff",4,0,"translate_to",'v',"",0x100,3,{{'P',16,8,T_AFFM,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',16,8,T_V,'o',0,"dest"}})
OP("translate_x","aff",4,0,"translate_x",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_S,'i',0,"x"}})
OP("translate_y","aff",4,0,"translate_y",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_S,'i',0,"y"}})
OP("translate_z","aff",4,0,"translate_z",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_S,'i',0,"z"}})
OP("translated","aff",4,0,"translated",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'P',3,1,T_V,'i',0,"v"}})
OP("translated_to","aff",4,0,"translated_to",'v',"",0x100,3,{{'P',16,8,T_AFFM,'i',0,"m"},{'P',3,1,T_V,'i',0,"v"},{'P',16,8,T_V,'o',0,"dest"}})
OP("translated_x","aff",4,0,"translated_x",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_S,'i',0,"x"}})
OP("translated_y","aff",4,0,"translated_y",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_S,'i',0,"y"}})
OP("translated_z","aff",4,0,"translated_z",'v',"",0x100,2,{{'P',16,8,T_AFFM,'u',0,"m"},{'F',0,0,T_S,'i',0,"z"}})
OP("uniscaled","aff",4,0,"uniscaled",'b',"",0x100,1,{{'P',16,8,T_TRS,'i',0,"m"}})
OP("mat3_textrans","aff2",3,0,"textrans",'v',"",0x200,6,{{'F',0,0,T_S,'i',0,"sx"},{'F',0,0,T_S,'i',0,"sy"},{'F',0,0,T_ANG,'i',0,"rot"},{'F',0,0,T_S,'i',0,"tx"},{'F',0,0,T_S,'i',0,"ty"},{'P',9,1,T_V,'o',0,"dest"}})
OP("mat4_textrans","aff2",4,0,"textrans",'v',"",0x200,6,{{'F',0,0,T_S,'i',0,"sx"},{'F',0,0,T_S,'i',0,"sy"},{'F',0,0,T_ANG,'i',0,"rot"},{'F',0,0,T_S,'i',0,"tx"},{'F',0,0,T_S,'i',0,"ty"},{'P',16,8,T_V,'o',0,"dest"}})
OP("rotate2d","aff2",3,0,"rotate2d",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"}})
OP("rotate2d_make","aff2",3,0,"rotate2d_make",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"}})
OP("rotate2d_to","aff2",3,0,"rotate2d_to",'v',"",0x200,3,{{'P',9,1,T_V,'i',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',9,1,T_V,'o',0,"dest"}})
OP("rotated2d","aff2",3,0,"rotated2d",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_ANG,'i',0,"angle"}})
OP("scale2d","aff2",3,0,"scale2d",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'P',2,1,T_V,'i',0,"v"}})
OP("scale2d_make","aff2",3,0,"scale2d_make",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'P',2,1,T_V,'i',0,"v"}})
OP("scale2d_to","aff2",3,0,"scale2d_to",'v',"",0x200,3,{{'P',9,1,T_V,'i',0,"m"},{'P',2,1,T_V,'i',0,"v"},{'P',9,1,T_V,'o',0,"dest"}})
OP("scale2d_uni","aff2",3,0,"scale2d_uni",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("scaled2d","aff2",3,0,"scaled2d",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'P',2,1,T_V,'i',0,"v"}})
OP("scaled2d_uni","aff2",3,0,"scaled2d_uni",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"s"}})
OP("translate2d","aff2",3,0,"translate2d",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'P',2,1,T_V,'i',0,"v"}})
OP("translate2d_make","aff2",3,0,"translate2d_make",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'P',2,1,T_V,'i',0,"v"}})
OP("translate2d_to","aff2",3,0,"translate2d_to",'v',"",0x200,3,{{'P',9,1,T_V,'i',0,"m"},{'P',2,1,T_V,'i',0,"v"},{'P',9,1,T_V,'o',0,"dest"}})
OP("translate2d_x","aff2",3,0,"translate2d_x",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"x"}})
OP("translate2d_y","aff2",3,0,"translate2d_y",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"y"}})
OP("translated2d","aff2",3,0,"translated2d",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'P',2,1,T_V,'i',0,"v"}})
OP("translated2d_x","aff2",3,0,"translated2d_x",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"x"}})
OP("translated2d_y","aff2",3,0,"translated2d_y",'v',"",0x200,2,{{'P',9,1,T_V,'u',0,"m"},{'F',0,0,T_S,'i',0,"y"}})
OP("quat","quat",4,0,"quat",'v',"",0x400,5,{{'P',4,4,T_AXS,'u',0,"q"},{'F',0,0,T_ANG,'i',0,"angle"},{'F',0,0,T_AXS,'i',0,"x"},{'F',0,0,T_AXS,'i',0,"y"},{'F',0,0,T_AXS,'i',0,"z"}})
OP("quat_add","quat",4,0,"add",'v',"",0x400,3,{{'P',4,4,T_Q,'i',0,"p"},{'P',4,4,T_Q,'i',0,"q"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_angle","quat",4,0,"angle",'f',"",0x400,1,{{'P',4,4,T_UQ,'i',0,"q"}})
OP("quat_axis","quat",4,0,"axis",'v',"",0x400,2,{{'P',4,4,T_UQ,'i',0,"q"},{'P',3,1,T_V,'o',0,"dest"}})
OP("quat_conjugate","quat",4,0,"conjugate",'v',"",0x400,2,{{'P',4,4,T_Q,'i',0,"q"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_copy","quat",4,0,"copy",'v',"",0x400,2,{{'P',4,4,T_Q,'i',0,"q"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_dot","quat",4,0,"dot",'f',"",0x400,2,{{'P',4,4,T_Q,'i',0,"p"},{'P',4,4,T_Q,'i',0,"q"}})
OP("quat_from_vecs","quat",4,0,"from_vecs",'v',"",0x400,3,{{'P',3,1,T_UNITM2,'i',0,"a"},{'P',3,1,T_UNITM2,'i',0,"b"},{'P',4,4,T_UNITM2,'o',0,"dest"}})
OP("quat_identity","quat",4,0,"identity",'v',"",0x400,1,{{'P',4,4,T_Q,'u',0,"q"}})
OP("quat_identity_array","quat",4,0,"identity_array",'v',"",0x400,2,{{'P',36,4,T_V,'u',0,"q"},{'I',0,0,T_CNT,'i',0,"count"}})
OP("quat_imag","quat",4,0,"imag",'v',"",0x400,2,{{'P',4,4,T_Q,'i',0,"q"},{'P',3,1,T_V,'o',0,"dest"}})
OP("quat_imaglen","quat",4,0,"imaglen",'f',"",0x400,1,{{'P',4,4,T_UQ,'i',0,"q"}})
OP("quat_imagn","quat",4,0,"imagn",'v',"",0x400,2,{{'P',4,4,T_UQ,'i',0,"q"},{'P',3,1,T_V,'o',0,"dest"}})
OP("quat_init","quat",4,0,"init",'v',"",0x400,5,{{'P',4,4,T_Q,'u',0,"q"},{'F',0,0,T_S,'i',0,"x"},{'F',0,0,T_S,'i',0,"y"},{'F',0,0,T_S,'i',0,"z"},{'F',0,0,T_S,'i',0,"w"}})
OP("quat_inv","quat",4,0,"inv",'v',"",0x400,2,{{'P',4,4,T_Q,'i',0,"q"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_make","quat",4,0,"make",'v',"",0x400,2,{{'P',4,1,T_V,'i',0,"src"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_mul","quat",4,0,"mul",'v',"",0x400,3,{{'P',4,4,T_Q,'i',0,"p"},{'P',4,4,T_Q,'i',0,"q"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_norm","quat",4,0,"norm",'f',"",0x400,1,{{'P',4,4,T_Q,'i',0,"q"}})
OP("quat_normalize","quat",4,0,"normalize",'v',"",0x400,1,{{'P',4,4,T_Q,'u',0,"q"}})
OP("quat_normalize_to","quat",4,0,"normalize_to",'v',"",0x400,2,{{'P',4,4,T_Q,'i',0,"q"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_real","quat",4,0,"real",'f',"",0x400,1,{{'P',4,4,T_Q,'i',0,"q"}})
OP("quat_rotatev","qrot",4,0,"rotatev",'v',"",0xc00,3,{{'P',4,4,T_Q,'i',0,"q"},{'P',3,1,T_V,'i',0,"v"},{'P',3,1,T_V,'o',0,"dest"}})
OP("quat_sub","quat",4,0,"sub",'v',"",0x400,3,{{'P',4,4,T_Q,'i',0,"p"},{'P',4,4,T_Q,'i',0,"q"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quatv","quat",4,0,"quatv",'v',"",0x400,3,{{'P',4,4,T_Q,'u',0,"q"},{'F',0,0,T_ANG,'i',0,"angle"},{'P',3,1,T_AXIS,'i',0,"axis"}})
OP("mat3_quat","qrot",3,0,"mat_quat",'v',"",0x800,2,{{'P',9,1,T_ROTQ3,'i',0,"m"},{'P',4,4,T_V,'o',0,"dest"}})
OP("mat4_quat","qrot",4,0,"mat_quat",'v',"",0x800,2,{{'P',16,8,T_ROTQ4,'i',0,"m"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_for","qrot",4,0,"for",'v',"",0x800,3,{{'P',3,1,T_UNIT,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_forp","qrot",4,0,"forp",'v',"",0x800,4,{{'P',3,1,T_V,'i',0,"from"},{'P',3,1,T_V,'i',0,"to"},{'P',3,1,T_V,'i',0,"up"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_look","qrot",4,0,"look",'v',"",0x800,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',4,4,T_UQ,'i',0,"ori"},{'P',16,8,T_V,'o',0,"dest"}})
OP("quat_mat3","qrot",4,0,"mat3",'v',"",0x800,2,{{'P',4,4,T_UQ,'i',0,"q"},{'P',9,1,T_V,'o',0,"dest"}})
OP("quat_mat3t","qrot",4,0,"mat3t",'v',"",0x800,2,{{'P',4,4,T_UQ,'i',0,"q"},{'P',9,1,T_V,'o',0,"dest"}})
OP("quat_mat4","qrot",4,0,"mat4",'v',"",0x800,2,{{'P',4,4,T_UQ,'i',0,"q"},{'P',16,8,T_V,'o',0,"dest"}})
OP("quat_mat4t","qrot",4,0,"mat4t",'v',"",0x800,2,{{'P',4,4,T_UQ,'i',0,"q"},{'P',16,8,T_V,'o',0,"dest"}})
OP("quat_rotate","qrot",4,0,"rotate",'v',"",0x800,3,{{'P',16,8,T_V,'i',0,"m"},{'P',4,4,T_UQ,'i',0,"q"},{'P',16,8,T_V,'o',0,"dest"}})
OP("quat_rotate_at","qrot",4,0,"rotate_at",'v',"",0x800,3,{{'P',16,8,T_V,'u',0,"m"},{'P',4,4,T_UQ,'i',0,"q"},{'P',3,1,T_V,'i',0,"pivot"}})
OP("quat_rotate_atm","qrot",4,0,"rotate_atm",'v',"",0x800,3,{{'P',16,8,T_V,'u',0,"m"},{'P',4,4,T_UQ,'i',0,"q"},{'P',3,1,T_V,'i',0,"pivot"}})
OP("quat_lerp","qint",4,0,"lerp",'v',"",0x1000,4,{{'P',4,4,T_UQ,'i',0,"from"},{'P',4,4,T_UQ,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_lerpc","qint",4,0,"lerpc",'v',"",0x1000,4,{{'P',4,4,T_UQ,'i',0,"from"},{'P',4,4,T_UQ,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_nlerp","qint",4,0,"nlerp",'v',"",0x1000,4,{{'P',4,4,T_UQ,'i',0,"from"},{'P',4,4,T_UQ,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_slerp","qint",4,0,"slerp",'v',"",0x1000,4,{{'P',4,4,T_UQ,'i',0,"from"},{'P',4,4,T_UQ,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("quat_slerp_longest","qint",4,0,"slerp_longest",'v',"",0x1000,4,{{'P',4,4,T_UQ,'i',0,"from"},{'P',4,4,T_UQ,'i',0,"to"},{'F',0,0,T_T,'i',0,"t"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler","euler",-1,0,"euler",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_angles","euler",-1,0,"euler_angles",'v',"",0x2000,2,{{'P',16,8,T_ROTE,'i',0,"m"},{'P',3,1,T_V,'o',0,"dest"}})
OP("euler_by_order","euler",-1,0,"euler_by_order",'v',"",0x2000,3,{{'P',3,1,T_ANGV,'i',0,"angles"},{'I',0,0,T_SEQ,'i',0,"ord"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_order","euler",-1,0,"euler_order",'i',"",0x2000,1,{{'P',3,1,T_ORD,'i',1,"ord"}})
OP("euler_xyz","euler",-1,0,"euler_xyz",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_xyz_quat","euler",-1,0,"euler_xyz_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_xyz_quat_lh","euler",1,0,"euler_xyz_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_xyz_quat_rh","euler",0,0,"euler_xyz_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_xzy","euler",-1,0,"euler_xzy",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_xzy_quat","euler",-1,0,"euler_xzy_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_xzy_quat_lh","euler",1,0,"euler_xzy_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_xzy_quat_rh","euler",0,0,"euler_xzy_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_yxz","euler",-1,0,"euler_yxz",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_yxz_quat","euler",-1,0,"euler_yxz_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_yxz_quat_lh","euler",1,0,"euler_yxz_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_yxz_quat_rh","euler",0,0,"euler_yxz_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_yzx","euler",-1,0,"euler_yzx",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_yzx_quat","euler",-1,0,"euler_yzx_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_yzx_quat_lh","euler",1,0,"euler_yzx_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_yzx_quat_rh","euler",0,0,"euler_yzx_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_zxy","euler",-1,0,"euler_zxy",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_zxy_quat","euler",-1,0,"euler_zxy_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_zxy_quat_lh","euler",1,0,"euler_zxy_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_zxy_quat_rh","euler",0,0,"euler_zxy_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_zyx","euler",-1,0,"euler_zyx",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',16,8,T_V,'o',0,"dest"}})
OP("euler_zyx_quat","euler",-1,0,"euler_zyx_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_zyx_quat_lh","euler",1,0,"euler_zyx_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("euler_zyx_quat_rh","euler",0,0,"euler_zyx_quat",'v',"",0x2000,2,{{'P',3,1,T_ANGV,'i',0,"angles"},{'P',4,4,T_V,'o',0,"dest"}})
OP("look","view",-1,-1,"look",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_anyup","view",-1,-1,"look_anyup",'v',"",0x4000,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_anyup_lh","view",1,-1,"look_anyup",'v',"",0x4000,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_anyup_lh_no","view",1,0,"look_anyup",'v',"",0x4000,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_anyup_lh_zo","view",1,1,"look_anyup",'v',"",0x4000,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_anyup_rh","view",0,-1,"look_anyup",'v',"",0x4000,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_anyup_rh_no","view",0,0,"look_anyup",'v',"",0x4000,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_anyup_rh_zo","view",0,1,"look_anyup",'v',"",0x4000,3,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_lh","view",1,-1,"look",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_lh_no","view",1,0,"look",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_lh_zo","view",1,1,"look",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_rh","view",0,-1,"look",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_rh_no","view",0,0,"look",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("look_rh_zo","view",0,1,"look",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"dir"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("lookat","view",-1,-1,"lookat",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"center"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("lookat_lh","view",1,-1,"lookat",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"center"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("lookat_lh_no","view",1,0,"lookat",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"center"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("lookat_lh_zo","view",1,1,"lookat",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"center"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("lookat_rh","view",0,-1,"lookat",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"center"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("lookat_rh_no","view",0,0,"lookat",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"center"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("lookat_rh_zo","view",0,1,"lookat",'v',"",0x4000,4,{{'P',3,1,T_V,'i',0,"eye"},{'P',3,1,T_V,'i',0,"center"},{'P',3,1,T_V,'i',0,"up"},{'P',16,8,T_V,'o',0,"dest"}})
OP("frustum","clip",-1,-1,"frustum",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("frustum_lh_no","clip",1,0,"frustum",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("frustum_lh_zo","clip",1,1,"frustum",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("frustum_rh_no","clip",0,0,"frustum",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("frustum_rh_zo","clip",0,1,"frustum",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho","clip",-1,-1,"ortho",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb","clip",-1,-1,"ortho_aabb",'v',"",0x8000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_lh_no","clip",1,0,"ortho_aabb",'v',"",0x8000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_lh_zo","clip",1,1,"ortho_aabb",'v',"",0x8000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_p","clip",-1,-1,"ortho_aabb_p",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_p_lh_no","clip",1,0,"ortho_aabb_p",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_p_lh_zo","clip",1,1,"ortho_aabb_p",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_p_rh_no","clip",0,0,"ortho_aabb_p",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_p_rh_zo","clip",0,1,"ortho_aabb_p",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_pz","clip",-1,-1,"ortho_aabb_pz",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_pz_lh_no","clip",1,0,"ortho_aabb_pz",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_pz_lh_zo","clip",1,1,"ortho_aabb_pz",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_pz_rh_no","clip",0,0,"ortho_aabb_pz",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_pz_rh_zo","clip",0,1,"ortho_aabb_pz",'v',"",0x8000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'F',0,0,T_PAD,'i',0,"padding"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_rh_no","clip",0,0,"ortho_aabb",'v',"",0x8000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_aabb_rh_zo","clip",0,1,"ortho_aabb",'v',"",0x8000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default","clip",-1,-1,"ortho_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_lh_no","clip",1,0,"ortho_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_lh_zo","clip",1,1,"ortho_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_rh_no","clip",0,0,"ortho_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_rh_zo","clip",0,1,"ortho_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_s","clip",-1,-1,"ortho_default_s",'v',"",0x8000,3,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_POS,'i',0,"size"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_s_lh_no","clip",1,0,"ortho_default_s",'v',"",0x8000,3,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_POS,'i',0,"size"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_s_lh_zo","clip",1,1,"ortho_default_s",'v',"",0x8000,3,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_POS,'i',0,"size"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_s_rh_no","clip",0,0,"ortho_default_s",'v',"",0x8000,3,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_POS,'i',0,"size"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_default_s_rh_zo","clip",0,1,"ortho_default_s",'v',"",0x8000,3,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_POS,'i',0,"size"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_lh_no","clip",1,0,"ortho",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_lh_zo","clip",1,1,"ortho",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_rh_no","clip",0,0,"ortho",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("ortho_rh_zo","clip",0,1,"ortho",'v',"",0x8000,7,{{'F',0,0,T_LEFT,'i',0,"left"},{'F',0,0,T_RIGHT,'i',0,"right"},{'F',0,0,T_BOTTOM,'i',0,"bottom"},{'F',0,0,T_TOP,'i',0,"top"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective","clip",-1,-1,"perspective",'v',"",0x8000,5,{{'F',0,0,T_FOVY,'i',0,"fovy"},{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_default","clip",-1,-1,"perspective_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_default_lh_no","clip",1,0,"perspective_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_default_lh_zo","clip",1,1,"perspective_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_default_rh_no","clip",0,0,"perspective_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_default_rh_zo","clip",0,1,"perspective_default",'v',"",0x8000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_lh_no","clip",1,0,"perspective",'v',"",0x8000,5,{{'F',0,0,T_FOVY,'i',0,"fovy"},{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_lh_zo","clip",1,1,"perspective",'v',"",0x8000,5,{{'F',0,0,T_FOVY,'i',0,"fovy"},{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_resize","clip",-1,-1,"perspective_resize",'v',"",0x18000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_PROJ,'u',0,"proj"}})
OP("perspective_resize_lh_no","clip",1,0,"perspective_resize",'v',"",0x18000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_PROJ,'u',0,"proj"}})
OP("perspective_resize_lh_zo","clip",1,1,"perspective_resize",'v',"",0x18000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_PROJ,'u',0,"proj"}})
OP("perspective_resize_rh_no","clip",0,0,"perspective_resize",'v',"",0x18000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_PROJ,'u',0,"proj"}})
OP("perspective_resize_rh_zo","clip",0,1,"perspective_resize",'v',"",0x18000,2,{{'F',0,0,T_ASPECT,'i',0,"aspect"},{'P',16,8,T_PROJ,'u',0,"proj"}})
OP("perspective_rh_no","clip",0,0,"perspective",'v',"",0x8000,5,{{'F',0,0,T_FOVY,'i',0,"fovy"},{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("perspective_rh_zo","clip",0,1,"perspective",'v',"",0x8000,5,{{'F',0,0,T_FOVY,'i',0,"fovy"},{'F',0,0,T_ASPECT,'i',0,"aspect"},{'F',0,0,T_NEAR,'i',0,"nearZ"},{'F',0,0,T_FAR,'i',0,"farZ"},{'P',16,8,T_V,'o',0,"dest"}})
OP("persp_aspect","clip",-1,-1,"persp_aspect",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_aspect_lh_no","clip",1,0,"persp_aspect",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_aspect_lh_zo","clip",1,1,"persp_aspect",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_aspect_rh_no","clip",0,0,"persp_aspect",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_aspect_rh_zo","clip",0,1,"persp_aspect",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_decomp","clip",-1,-1,"persp_decomp",'v',"",0x10000,7,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_far","clip",-1,-1,"persp_decomp_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_far_lh_no","clip",1,0,"persp_decomp_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_far_lh_zo","clip",1,1,"persp_decomp_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_far_rh_no","clip",0,0,"persp_decomp_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_far_rh_zo","clip",0,1,"persp_decomp_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_lh_no","clip",1,0,"persp_decomp",'v',"",0x10000,7,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_lh_zo","clip",1,1,"persp_decomp",'v',"",0x10000,7,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_near","clip",-1,-1,"persp_decomp_near",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"}})
OP("persp_decomp_near_lh_no","clip",1,0,"persp_decomp_near",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"}})
OP("persp_decomp_near_lh_zo","clip",1,1,"persp_decomp_near",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"}})
OP("persp_decomp_near_rh_no","clip",0,0,"persp_decomp_near",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"}})
OP("persp_decomp_near_rh_zo","clip",0,1,"persp_decomp_near",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"}})
OP("persp_decomp_rh_no","clip",0,0,"persp_decomp",'v',"",0x10000,7,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_rh_zo","clip",0,1,"persp_decomp",'v',"",0x10000,7,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_x","clip",-1,-1,"persp_decomp_x",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_x_lh_no","clip",1,0,"persp_decomp_x",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_x_lh_zo","clip",1,1,"persp_decomp_x",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_x_rh_no","clip",0,0,"persp_decomp_x",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_x_rh_zo","clip",0,1,"persp_decomp_x",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"left"},{'P',1,1,T_V,'o',0,"right"}})
OP("persp_decomp_y","clip",-1,-1,"persp_decomp_y",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"}})
OP("persp_decomp_y_lh_no","clip",1,0,"persp_decomp_y",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"}})
OP("persp_decomp_y_lh_zo","clip",1,1,"persp_decomp_y",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"}})
OP("persp_decomp_y_rh_no","clip",0,0,"persp_decomp_y",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"}})
OP("persp_decomp_y_rh_zo","clip",0,1,"persp_decomp_y",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"top"},{'P',1,1,T_V,'o',0,"bottom"}})
OP("persp_decomp_z","clip",-1,-1,"persp_decomp_z",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_z_lh_no","clip",1,0,"persp_decomp_z",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_z_lh_zo","clip",1,1,"persp_decomp_z",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_z_rh_no","clip",0,0,"persp_decomp_z",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decomp_z_rh_zo","clip",0,1,"persp_decomp_z",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'u',0,"proj"},{'P',1,1,T_V,'o',0,"nearZ"},{'P',1,1,T_V,'o',0,"farZ"}})
OP("persp_decompv","clip",-1,-1,"persp_decompv",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'i',0,"proj"},{'P',6,1,T_V,'o',0,"dest"}})
OP("persp_decompv_lh_no","clip",1,0,"persp_decompv",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'i',0,"proj"},{'P',6,1,T_V,'o',0,"dest"}})
OP("persp_decompv_lh_zo","clip",1,1,"persp_decompv",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'i',0,"proj"},{'P',6,1,T_V,'o',0,"dest"}})
OP("persp_decompv_rh_no","clip",0,0,"persp_decompv",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'i',0,"proj"},{'P',6,1,T_V,'o',0,"dest"}})
OP("persp_decompv_rh_zo","clip",0,1,"persp_decompv",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'i',0,"proj"},{'P',6,1,T_V,'o',0,"dest"}})
OP("persp_fovy","clip",-1,-1,"persp_fovy",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_fovy_lh_no","clip",1,0,"persp_fovy",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_fovy_lh_zo","clip",1,1,"persp_fovy",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_fovy_rh_no","clip",0,0,"persp_fovy",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_fovy_rh_zo","clip",0,1,"persp_fovy",'f',"",0x10000,1,{{'P',16,8,T_PROJ,'i',0,"proj"}})
OP("persp_move_far","clip",-1,-1,"persp_move_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'F',0,0,T_DFAR,'i',0,"deltaFar"}})
OP("persp_move_far_lh_no","clip",1,0,"persp_move_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'F',0,0,T_DFAR,'i',0,"deltaFar"}})
OP("persp_move_far_lh_zo","clip",1,1,"persp_move_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'F',0,0,T_DFAR,'i',0,"deltaFar"}})
OP("persp_move_far_rh_no","clip",0,0,"persp_move_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'F',0,0,T_DFAR,'i',0,"deltaFar"}})
OP("persp_move_far_rh_zo","clip",0,1,"persp_move_far",'v',"",0x10000,2,{{'P',16,8,T_PROJ,'u',0,"proj"},{'F',0,0,T_DFAR,'i',0,"deltaFar"}})
OP("persp_sizes","clip",-1,-1,"persp_sizes",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'i',0,"proj"},{'F',0,0,T_FOVY,'i',0,"fovy"},{'P',4,4,T_V,'o',0,"dest"}})
OP("persp_sizes_lh_no","clip",1,0,"persp_sizes",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'i',0,"proj"},{'F',0,0,T_FOVY,'i',0,"fovy"},{'P',4,4,T_V,'o',0,"dest"}})
OP("persp_sizes_lh_zo","clip",1,1,"persp_sizes",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'i',0,"proj"},{'F',0,0,T_FOVY,'i',0,"fovy"},{'P',4,4,T_V,'o',0,"dest"}})
OP("persp_sizes_rh_no","clip",0,0,"persp_sizes",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'i',0,"proj"},{'F',0,0,T_FOVY,'i',0,"fovy"},{'P',4,4,T_V,'o',0,"dest"}})
OP("persp_sizes_rh_zo","clip",0,1,"persp_sizes",'v',"",0x10000,3,{{'P',16,8,T_PROJ,'i',0,"proj"},{'F',0,0,T_FOVY,'i',0,"fovy"},{'P',4,4,T_V,'o',0,"dest"}})
OP("pickmatrix","proj",-1,-1,"pickmatrix",'v',"",0x20000,4,{{'P',2,1,T_V,'i',0,"center"},{'P',2,1,T_SIZE2,'i',0,"size"},{'P',4,4,T_VP,'i',0,"vp"},{'P',16,8,T_V,'u',0,"dest"}})
OP("project","proj",-1,-1,"project",'v',"",0x20000,4,{{'P',3,1,T_V,'i',0,"pos"},{'P',16,8,T_MVP,'i',0,"m"},{'P',4,4,T_VP,'i',0,"vp"},{'P',3,1,T_V,'o',0,"dest"}})
OP("project_no","proj",-1,0,"project",'v',"",0x20000,4,{{'P',3,1,T_V,'i',0,"pos"},{'P',16,8,T_MVP,'i',0,"m"},{'P',4,4,T_VP,'i',0,"vp"},{'P',3,1,T_V,'o',0,"dest"}})
OP("project_z","proj",-1,-1,"project_z",'f',"",0x20000,2,{{'P',3,1,T_V,'i',0,"v"},{'P',16,8,T_MVP,'i',0,"m"}})
OP("project_z_no","proj",-1,0,"project_z",'f',"",0x20000,2,{{'P',3,1,T_V,'i',0,"v"},{'P',16,8,T_MVP,'i',0,"m"}})
OP("project_z_zo","proj",-1,1,"project_z",'f',"",0x20000,2,{{'P',3,1,T_V,'i',0,"v"},{'P',16,8,T_MVP,'i',0,"m"}})
OP("project_zo","proj",-1,1,"project",'v',"",0x20000,4,{{'P',3,1,T_V,'i',0,"pos"},{'P',16,8,T_MVP,'i',0,"m"},{'P',4,4,T_VP,'i',0,"vp"},{'P',3,1,T_V,'o',0,"dest"}})
OP("unproject","proj",-1,-1,"unproject",'v',"",0x20000,4,{{'P',3,1,T_WIN,'i',0,"pos"},{'P',16,8,T_MVP,'i',0,"m"},{'P',4,4,T_VP,'i',0,"vp"},{'P',3,1,T_V,'o',0,"dest"}})
OP("unprojecti","proj",-1,-1,"unprojecti",'v',"",0x20000,4,{{'P',3,1,T_WIN,'i',0,"pos"},{'P',16,8,T_MVPI,'i',0,"invMat"},{'P',4,4,T_VP,'i',0,"vp"},{'P',3,1,T_V,'o',0,"dest"}})
OP("unprojecti_no","proj",-1,0,"unprojecti",'v',"",0x20000,4,{{'P',3,1,T_WIN,'i',0,"pos"},{'P',16,8,T_MVPI,'i',0,"invMat"},{'P',4,4,T_VP,'i',0,"vp"},{'P',3,1,T_V,'o',0,"dest"}})
OP("unprojecti_zo","proj",-1,1,"unprojecti",'v',"",0x20000,4,{{'P',3,1,T_WIN,'i',0,"pos"},{'P',16,8,T_MVPI,'i',0,"invMat"},{'P',4,4,T_VP,'i',0,"vp"},{'P',3,1,T_V,'o',0,"dest"}})
OP("aabb_frustum","frus",0,0,"aabb_frustum",'b',"",0x40000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',24,4,T_PLANES,'i',0,"planes"}})
OP("frustum_box","frus",0,0,"frustum_box",'v',"",0x40000,3,{{'P',32,4,T_CORN,'i',0,"corners"},{'P',16,8,T_VIEW,'i',0,"m"},{'P',6,1,T_V,'o',0,"box"}})
OP("frustum_center","frus",0,0,"frustum_center",'v',"",0x40000,2,{{'P',32,4,T_CORN,'i',0,"corners"},{'P',4,4,T_V,'o',0,"dest"}})
OP("frustum_corners","frus",0,0,"frustum_corners",'v',"",0x40000,2,{{'P',16,8,T_MVPI,'i',0,"invMat"},{'P',32,4,T_V,'o',0,"dest"}})
OP("frustum_corners_at","frus",0,0,"frustum_corners_at",'v',"",0x40000,4,{{'P',32,4,T_CORN,'i',0,"corners"},{'F',0,0,T_POS,'i',0,"splitDist"},{'F',0,0,T_POS,'i',0,"farDist"},{'P',16,4,T_V,'o',0,"planeCorners"}})
OP("frustum_planes","frus",0,0,"frustum_planes",'v',"",0x40000,2,{{'P',16,8,T_MVP,'i',0,"m"},{'P',24,4,T_V,'o',0,"dest"}})
OP("plane_normalize","frus",0,0,"plane_normalize",'v',"",0x40000,1,{{'P',4,4,T_VZ,'u',0,"plane"}})
OP("aabb2d_aabb","box",2,0,"aabb",'b',"",0x80000,2,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',4,1,T_BOX,'i',0,"other"}})
OP("aabb2d_center","box",2,0,"center",'v',"",0x80000,2,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',2,1,T_VL,'o',0,"dest"}})
OP("aabb2d_circle","box",2,0,"circle",'b',"",0x80000,2,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',3,1,T_SPH,'i',0,"c"}})
OP("aabb2d_contains","box",2,0,"contains",'b',"",0x80000,2,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',4,1,T_BOX,'i',0,"other"}})
OP("aabb2d_copy","box",2,0,"copy",'v',"",0x80000,2,{{'P',4,1,T_BOXI,'i',0,"aabb"},{'P',4,1,T_V,'o',0,"dest"}})
OP("aabb2d_crop","box",2,0,"crop",'v',"",0x80000,3,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',4,1,T_BOX,'i',0,"cropAabb"},{'P',4,1,T_V,'o',0,"dest"}})
OP("aabb2d_crop_until","box",2,0,"crop_until",'v',"",0x80000,4,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',4,1,T_BOX,'i',0,"cropAabb"},{'P',4,1,T_BOX,'i',0,"clampAabb"},{'P',4,1,T_V,'o',0,"dest"}})
OP("aabb2d_diag","box",2,0,"diag",'f',"",0x80000,1,{{'P',4,1,T_BOX,'i',0,"aabb"}})
OP("aabb2d_invalidate","box",2,0,"invalidate",'v',"",0x80000,1,{{'P',4,1,T_BOX,'u',0,"aabb"}})
OP("aabb2d_isvalid","box",2,0,"isvalid",'b',"",0x80000,1,{{'P',4,1,T_BOXI,'i',0,"aabb"}})
OP("aabb2d_merge","box",2,0,"merge",'v',"",0x80000,3,{{'P',4,1,T_BOXI,'i',0,"aabb1"},{'P',4,1,T_BOXI,'i',0,"aabb2"},{'P',4,1,T_V,'o',0,"dest"}})
OP("aabb2d_point","box",2,0,"point",'b',"",0x80000,2,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',2,1,T_VL,'i',0,"point"}})
OP("aabb2d_radius","box",2,0,"radius",'f',"",0x80000,1,{{'P',4,1,T_BOX,'i',0,"aabb"}})
OP("aabb2d_size","box",2,0,"diag",'f',"",0x80000,1,{{'P',4,1,T_BOX,'i',0,"aabb"}})
OP("aabb2d_sizev","box",2,0,"sizev",'v',"",0x80000,2,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',2,1,T_VL,'o',0,"dest"}})
OP("aabb2d_transform","box",2,0,"transform",'v',"",0x80000,3,{{'P',4,1,T_BOX,'i',0,"aabb"},{'P',9,1,T_V,'i',0,"m"},{'P',4,1,T_V,'o',0,"dest"}})
OP("aabb2d_zero","box",2,0,"zero",'v',"",0x80000,1,{{'P',4,1,T_BOX,'u',0,"aabb"}})
OP("aabb_aabb","box",3,0,"aabb",'b',"",0x80000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',6,1,T_BOX,'i',0,"other"}})
OP("aabb_center","box",3,0,"center",'v',"",0x80000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',3,1,T_VL,'o',0,"dest"}})
OP("aabb_contains","box",3,0,"contains",'b',"",0x80000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',6,1,T_BOX,'i',0,"other"}})
OP("aabb_crop","box",3,0,"crop",'v',"",0x80000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'P',6,1,T_BOX,'i',0,"cropBox"},{'P',6,1,T_V,'o',0,"dest"}})
OP("aabb_crop_until","box",3,0,"crop_until",'v',"",0x80000,4,{{'P',6,1,T_BOX,'i',0,"box"},{'P',6,1,T_BOX,'i',0,"cropBox"},{'P',6,1,T_BOX,'i',0,"clampBox"},{'P',6,1,T_V,'o',0,"dest"}})
OP("aabb_invalidate","box",3,0,"invalidate",'v',"",0x80000,1,{{'P',6,1,T_BOX,'u',0,"box"}})
OP("aabb_isvalid","box",3,0,"isvalid",'b',"",0x80000,1,{{'P',6,1,T_BOXI,'i',0,"box"}})
OP("aabb_merge","box",3,0,"merge",'v',"",0x80000,3,{{'P',6,1,T_BOXI,'i',0,"box1"},{'P',6,1,T_BOXI,'i',0,"box2"},{'P',6,1,T_V,'o',0,"dest"}})
OP("aabb_point","box",3,0,"point",'b',"",0x80000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',3,1,T_VL,'i',0,"point"}})
OP("aabb_radius","box",3,0,"radius",'f',"",0x80000,1,{{'P',6,1,T_BOX,'i',0,"box"}})
OP("aabb_size","box",3,0,"size",'f',"",0x80000,1,{{'P',6,1,T_BOX,'i',0,"box"}})
OP("aabb_sphere","box",3,0,"sphere",'b',"",0x80000,2,{{'P',6,1,T_BOX,'i',0,"box"},{'P',4,4,T_SPH,'i',0,"s"}})
OP("aabb_transform","box",3,0,"transform",'v',"",0x80000,3,{{'P',6,1,T_BOX,'i',0,"box"},{'P',16,8,T_V,'i',0,"m"},{'P',6,1,T_V,'o',0,"dest"}})
OP("ray_at","ray",0,0,"ray_at",'v',"",0x100000,4,{{'P',3,1,T_V,'i',0,"orig"},{'P',3,1,T_V,'i',0,"dir"},{'F',0,0,T_S,'i',0,"t"},{'P',3,1,T_V,'o',0,"point"}})
OP("ray_sphere","ray",0,0,"ray_sphere",'b',"",0x100000,5,{{'P',3,1,T_V,'i',0,"origin"},{'P',3,1,T_UNITM,'i',0,"dir"},{'P',4,4,T_SPHR,'i',0,"s"},{'P',1,1,T_V,'o',0,"t1"},{'P',1,1,T_V,'o',0,"t2"}})
OP("ray_triangle","ray",0,0,"ray_triangle",'b',"",0x100000,6,{{'P',3,1,T_VL,'i',0,"origin"},{'P',3,1,T_VL,'i',0,"direction"},{'P',3,1,T_VL,'i',0,"v0"},{'P',3,1,T_VL,'i',0,"v1"},{'P',3,1,T_VL,'i',0,"v2"},{'P',1,1,T_VL,'o',0,"d"}})
OP("sphere_merge","ray",0,0,"sphere_merge",'v',"",0x100000,3,{{'P',4,4,T_SPHR,'i',0,"s1"},{'P',4,4,T_SPHR,'i',0,"s2"},{'P',4,4,T_V,'o',0,"dest"}})
OP("sphere_point","ray",0,0,"sphere_point",'b',"",0x100000,2,{{'P',4,4,T_SPHR,'i',0,"s"},{'P',3,1,T_V,'i',0,"point"}})
OP("sphere_radii","ray",0,0,"sphere_radii",'f',"",0x100000,1,{{'P',4,4,T_SPHR,'i',0,"s"}})
OP("sphere_sphere","ray",0,0,"sphere_sphere",'b',"",0x100000,2,{{'P',4,4,T_SPHR,'i',0,"s1"},{'P',4,4,T_SPHR,'i',0,"s2"}})
OP("sphere_transform","ray",0,0,"sphere_transform",'v',"",0x100000,3,{{'P',4,4,T_SPHR,'i',0,"s"},{'P',16,8,T_V,'i',0,"m"},{'P',4,4,T_V,'o',0,"dest"}})
OP("bezier","curve",0,0,"bezier",'f',"",0x200000,5,{{'F',0,0,T_T,'i',0,"s"},{'F',0,0,T_S,'i',0,"p0"},{'F',0,0,T_S,'i',0,"c0"},{'F',0,0,T_S,'i',0,"c1"},{'F',0,0,T_S,'i',0,"p1"}})
OP("decasteljau","curve",0,0,"decasteljau",'f',"",0x200000,5,{{'F',0,0,T_T01,'i',0,"prm"},{'F',0,0,T_S,'i',0,"p0"},{'F',0,0,T_S,'i',0,"c0"},{'F',0,0,T_S,'i',0,"c1"},{'F',0,0,T_S,'i',0,"p1"}})
OP("ease_back_in","ease",0,0,"back_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_back_inout","ease",0,0,"back_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_back_out","ease",0,0,"back_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_bounce_in","ease",0,0,"bounce_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_bounce_inout","ease",0,0,"bounce_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_bounce_out","ease",0,0,"bounce_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_circ_in","ease",0,0,"circ_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_circ_inout","ease",0,0,"circ_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_circ_out","ease",0,0,"circ_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_cubic_in","ease",0,0,"cubic_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_cubic_inout","ease",0,0,"cubic_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_cubic_out","ease",0,0,"cubic_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_elast_in","ease",0,0,"elast_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_elast_inout","ease",0,0,"elast_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_elast_out","ease",0,0,"elast_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_exp_in","ease",0,0,"exp_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_exp_inout","ease",0,0,"exp_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_exp_out","ease",0,0,"exp_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_linear","ease",0,0,"linear",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quad_in","ease",0,0,"quad_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quad_inout","ease",0,0,"quad_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quad_out","ease",0,0,"quad_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quart_in","ease",0,0,"quart_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quart_inout","ease",0,0,"quart_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quart_out","ease",0,0,"quart_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quint_in","ease",0,0,"quint_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quint_inout","ease",0,0,"quint_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_quint_out","ease",0,0,"quint_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_sine_in","ease",0,0,"sine_in",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_sine_inout","ease",0,0,"sine_inout",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("ease_sine_out","ease",0,0,"sine_out",'f',"",0x200000,1,{{'F',0,0,T_T01,'i',0,"t"}})
OP("hermite","curve",0,0,"hermite",'f',"",0x200000,5,{{'F',0,0,T_T,'i',0,"s"},{'F',0,0,T_S,'i',0,"p0"},{'F',0,0,T_S,'i',0,"t0"},{'F',0,0,T_S,'i',0,"t1"},{'F',0,0,T_S,'i',0,"p1"}})
OP("smc","curve",0,0,"smc",'f',"",0x200000,3,{{'F',0,0,T_T,'i',0,"s"},{'P',16,8,T_V,'i',0,"m"},{'P',4,4,T_V,'i',0,"c"}})
OP("perlin_vec2","noise",2,0,"perlin",'f',"",0x400000,1,{{'P',2,1,T_NOISE,'i',0,"point"}})
OP("perlin_vec3","noise",3,0,"perlin",'f',"",0x400000,1,{{'P',3,1,T_NOISE,'i',0,"point"}})
OP("perlin_vec4","noise",4,0,"perlin",'f',"",0x400000,1,{{'P',4,4,T_NOISE,'i',0,"point"}})
OP("const_vec2_one_init","const",2,0,"one",'v',"",0x2,1,{{'P',2,1,T_V,'o',0,"dest"}})
OP("const_vec2_one","const",2,0,"one",'v',"",0x2,1,{{'P',2,1,T_V,'o',0,"dest"}})
OP("const_vec2_zero_init","const",2,0,"zero",'v',"",0x2,1,{{'P',2,1,T_V,'o',0,"dest"}})
OP("const_vec2_zero","const",2,0,"zero",'v',"",0x2,1,{{'P',2,1,T_V,'o',0,"dest"}})
OP("const_vec3_one_init","const",3,0,"one",'v',"",0x2,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_vec3_one","const",3,0,"one",'v',"",0x2,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_vec3_zero_init","const",3,0,"zero",'v',"",0x2,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_vec3_zero","const",3,0,"zero",'v',"",0x2,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_vec4_one_init","const",4,0,"one",'v',"",0x2,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_vec4_one","const",4,0,"one",'v',"",0x2,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_vec4_zero_init","const",4,0,"zero",'v',"",0x2,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_vec4_zero","const",4,0,"zero",'v',"",0x2,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_vec4_black_init","const",4,0,"black",'v',"",0x2,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_vec4_black","const",4,0,"black",'v',"",0x2,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_ivec2_one_init","const",2,0,"ione",'v',"",0x4,1,{{'P',2,1,T_V,'o',1,"dest"}})
OP("const_ivec2_one","const",2,0,"ione",'v',"",0x4,1,{{'P',2,1,T_V,'o',1,"dest"}})
OP("const_ivec2_zero_init","const",2,0,"izero",'v',"",0x4,1,{{'P',2,1,T_V,'o',1,"dest"}})
OP("const_ivec2_zero","const",2,0,"izero",'v',"",0x4,1,{{'P',2,1,T_V,'o',1,"dest"}})
OP("const_ivec3_one_init","const",3,0,"ione",'v',"",0x4,1,{{'P',3,1,T_V,'o',1,"dest"}})
OP("const_ivec3_one","const",3,0,"ione",'v',"",0x4,1,{{'P',3,1,T_V,'o',1,"dest"}})
OP("const_ivec3_zero_init","const",3,0,"izero",'v',"",0x4,1,{{'P',3,1,T_V,'o',1,"dest"}})
OP("const_ivec3_zero","const",3,0,"izero",'v',"",0x4,1,{{'P',3,1,T_V,'o',1,"dest"}})
OP("const_ivec4_one_init","const",4,0,"ione",'v',"",0x4,1,{{'P',4,1,T_V,'o',1,"dest"}})
OP("const_ivec4_one","const",4,0,"ione",'v',"",0x4,1,{{'P',4,1,T_V,'o',1,"dest"}})
OP("const_ivec4_zero_init","const",4,0,"izero",'v',"",0x4,1,{{'P',4,1,T_V,'o',1,"dest"}})
OP("const_ivec4_zero","const",4,0,"izero",'v',"",0x4,1,{{'P',4,1,T_V,'o',1,"dest"}})
OP("const_mat2_zero_init","const",2,2,"mzero",'v',"",0x40,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_mat2_zero","const",2,2,"mzero",'v',"",0x40,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_mat2_identity_init","const",2,2,"midentity",'v',"",0x40,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_mat2_identity","const",2,2,"midentity",'v',"",0x40,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_mat2x3_zero_init","const",2,3,"mzero",'v',"",0x40,1,{{'P',6,1,T_V,'o',0,"dest"}})
OP("const_mat2x3_zero","const",2,3,"mzero",'v',"",0x40,1,{{'P',6,1,T_V,'o',0,"dest"}})
OP("const_mat2x4_zero_init","const",2,4,"mzero",'v',"",0x40,1,{{'P',8,4,T_V,'o',0,"dest"}})
OP("const_mat2x4_zero","const",2,4,"mzero",'v',"",0x40,1,{{'P',8,4,T_V,'o',0,"dest"}})
OP("const_mat3x2_zero_init","const",3,2,"mzero",'v',"",0x40,1,{{'P',6,1,T_V,'o',0,"dest"}})
OP("const_mat3x2_zero","const",3,2,"mzero",'v',"",0x40,1,{{'P',6,1,T_V,'o',0,"dest"}})
OP("const_mat3_zero_init","const",3,3,"mzero",'v',"",0x40,1,{{'P',9,1,T_V,'o',0,"dest"}})
OP("const_mat3_zero","const",3,3,"mzero",'v',"",0x40,1,{{'P',9,1,T_V,'o',0,"dest"}})
OP("const_mat3_identity_init","const",3,3,"midentity",'v',"",0x40,1,{{'P',9,1,T_V,'o',0,"dest"}})
OP("const_mat3_identity","const",3,3,"midentity",'v',"",0x40,1,{{'P',9,1,T_V,'o',0,"dest"}})
OP("const_mat3x4_zero_init","const",3,4,"mzero",'v',"",0x40,1,{{'P',12,4,T_V,'o',0,"dest"}})
OP("const_mat3x4_zero","const",3,4,"mzero",'v',"",0x40,1,{{'P',12,4,T_V,'o',0,"dest"}})
OP("const_mat4x2_zero_init","const",4,2,"mzero",'v',"",0x40,1,{{'P',8,1,T_V,'o',0,"dest"}})
OP("const_mat4x2_zero","const",4,2,"mzero",'v',"",0x40,1,{{'P',8,1,T_V,'o',0,"dest"}})
OP("const_mat4x3_zero_init","const",4,3,"mzero",'v',"",0x40,1,{{'P',12,1,T_V,'o',0,"dest"}})
OP("const_mat4x3_zero","const",4,3,"mzero",'v',"",0x40,1,{{'P',12,1,T_V,'o',0,"dest"}})
OP("const_mat4_zero_init","const",4,4,"mzero",'v',"",0x40,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_mat4_zero","const",4,4,"mzero",'v',"",0x40,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_mat4_identity_init","const",4,4,"midentity",'v',"",0x40,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_mat4_identity","const",4,4,"midentity",'v',"",0x40,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_quat_identity_init","const",4,0,"qid",'v',"",0x400,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_quat_identity","const",4,0,"qid",'v',"",0x400,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_xup","const",3,0,"xup",'v',"",0x4000,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_yup","const",3,0,"yup",'v',"",0x4000,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_zup","const",3,0,"zup",'v',"",0x4000,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_forward","const",3,0,"forward",'v',"",0x4000,1,{{'P',3,1,T_V,'o',0,"dest"}})
OP("const_bezier_mat_init","const",4,4,"beziermat",'v',"",0x200000,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_bezier_mat","const",4,4,"beziermat",'v',"",0x200000,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_hermite_mat_init","const",4,4,"hermitemat",'v',"",0x200000,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_hermite_mat","const",4,4,"hermitemat",'v',"",0x200000,1,{{'P',16,8,T_V,'o',0,"dest"}})
OP("const_cscoord_lbn","const",4,0,"corner_lbn",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_cscoord_ltn","const",4,0,"corner_ltn",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_cscoord_rtn","const",4,0,"corner_rtn",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_cscoord_rbn","const",4,0,"corner_rbn",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_cscoord_lbf","const",4,0,"corner_lbf",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_cscoord_ltf","const",4,0,"corner_ltf",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_cscoord_rtf","const",4,0,"corner_rtf",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_cscoord_rbf","const",4,0,"corner_rbf",'v',"",0x40000,1,{{'P',4,4,T_V,'o',0,"dest"}})
OP("const_lbn","const",0,0,"int",'i',"",0x40000,0,{{0}})
OP("const_ltn","const",1,0,"int",'i',"",0x40000,0,{{0}})
OP("const_rtn","const",2,0,"int",'i',"",0x40000,0,{{0}})
OP("const_rbn","const",3,0,"int",'i',"",0x40000,0,{{0}})
OP("const_lbf","const",4,0,"int",'i',"",0x40000,0,{{0}})
OP("const_ltf","const",5,0,"int",'i',"",0x40000,0,{{0}})
OP("const_rtf","const",6,0,"int",'i',"",0x40000,0,{{0}})
OP("const_rbf","const",7,0,"int",'i',"",0x40000,0,{{0}})
OP("const_left","const",0,0,"int",'i',"",0x40000,0,{{0}})
OP("const_right","const",1,0,"int",'i',"",0x40000,0,{{0}})
OP("const_bottom","const",2,0,"int",'i',"",0x40000,0,{{0}})
OP("const_top","const",3,0,"int",'i',"",0x40000,0,{{0}})
OP("const_near","const",4,0,"int",'i',"",0x40000,0,{{0}})
OP("const_far","const",5,0,"int",'i',"",0x40000,0,{{0}})
OP("const_xxx","const",0,0,"int",'i',"",0x8,0,{{0}})
OP("const_yyy","const",21,0,"int",'i',"",0x8,0,{{0}})
OP("const_zzz","const",42,0,"int",'i',"",0x8,0,{{0}})
OP("const_zyx","const",6,0,"int",'i',"",0x8,0,{{0}})
OP("const_xxxx","const",0,0,"int",'i',"",0x8,0,{{0}})
OP("const_yyyy","const",85,0,"int",'i',"",0x8,0,{{0}})
OP("const_zzzz","const",170,0,"int",'i',"",0x8,0,{{0}})
OP("const_wwww","const",255,0,"int",'i',"",0x8,0,{{0}})
OP("const_wzyx","const",27,0,"int",'i',"",0x8,0,{{0}})
OP("const_euler_xyz","const",36,0,"int",'i',"",0x2000,0,{{0}})
OP("const_euler_xzy","const",24,0,"int",'i',"",0x2000,0,{{0}})
OP("const_euler_yxz","const",33,0,"int",'i',"",0x2000,0,{{0}})
OP("const_euler_yzx","const",9,0,"int",'i',"",0x2000,0,{{0}})
OP("const_euler_zxy","const",18,0,"int",'i',"",0x2000,0,{{0}})
OP("const_euler_zyx","const",6,0,"int",'i',"",0x2000,0,{{0}})
OP("shuffle2","const",2,0,"shuffle",'i',"",0x8,2,{{'I',0,0,T_IDX2,'i',0,"y"},{'I',0,0,T_IDX2,'i',0,"x"}})
OP("shuffle3","const",3,0,"shuffle",'i',"",0x8,3,{{'I',0,0,T_IDX3,'i',0,"z"},{'I',0,0,T_IDX3,'i',0,"y"},{'I',0,0,T_IDX3,'i',0,"x"}})
OP("shuffle4","const",4,0,"shuffle",'i',"",0x8,4,{{'I',0,0,T_IDX4,'i',0,"z"},{'I',0,0,T_IDX4,'i',0,"y"},{'I',0,0,T_IDX4,'i',0,"x"},{'I',0,0,T_IDX4,'i',0,"w"}})
OP("macro_min","const",0,0,"min",'f',"",0x10,2,{{'F',0,0,T_S,'i',0,"x"},{'F',0,0,T_S,'i',0,"y"}})
OP("macro_max","const",0,0,"max",'f',"",0x10,2,{{'F',0,0,T_S,'i',0,"x"},{'F',0,0,T_S,'i',0,"y"}})
OP("const_e","const",0,0,"E",'f',"",0x10,0,{{0}})
OP("const_ef","const",0,0,"E",'f',"",0x10,0,{{0}})
OP("const_log2e","const",0,0,"LOG2E",'f',"",0x10,0,{{0}})
OP("const_log2ef","const",0,0,"LOG2E",'f',"",0x10,0,{{0}})
OP("const_log10e","const",0,0,"LOG10E",'f',"",0x10,0,{{0}})
OP("const_log10ef","const",0,0,"LOG10E",'f',"",0x10,0,{{0}})
OP("const_ln2","const",0,0,"LN2",'f',"",0x10,0,{{0}})
OP("const_ln2f","const",0,0,"LN2",'f',"",0x10,0,{{0}})
OP("const_ln10","const",0,0,"LN10",'f',"",0x10,0,{{0}})
OP("const_ln10f","const",0,0,"LN10",'f',"",0x10,0,{{0}})
OP("const_pi","const",0,0,"PI",'f',"",0x10,0,{{0}})
OP("const_pif","const",0,0,"PI",'f',"",0x10,0,{{0}})
OP("const_pi_2","const",0,0,"PI_2",'f',"",0x10,0,{{0}})
OP("const_pi_2f","const",0,0,"PI_2",'f',"",0x10,0,{{0}})
OP("const_pi_4","const",0,0,"PI_4",'f',"",0x10,0,{{0}})
OP("const_pi_4f","const",0,0,"PI_4",'f',"",0x10,0,{{0}})
OP("const_1_pi","const",0,0,"1_PI",'f',"",0x10,0,{{0}})
OP("const_1_pif","const",0,0,"1_PI",'f',"",0x10,0,{{0}})
OP("const_2_pi","const",0,0,"2_PI",'f',"",0x10,0,{{0}})
OP("const_2_pif","const",0,0,"2_PI",'f',"",0x10,0,{{0}})
OP("const_tau","const",0,0,"TAU",'f',"",0x10,0,{{0}})
OP("const_tauf","const",0,0,"TAU",'f',"",0x10,0,{{0}})
OP("const_tau_2","const",0,0,"TAU_2",'f',"",0x10,0,{{0}})
OP("const_tau_2f","const",0,0,"TAU_2",'f',"",0x10,0,{{0}})
OP("const_tau_4","const",0,0,"TAU_4",'f',"",0x10,0,{{0}})
OP("const_tau_4f","const",0,0,"TAU_4",'f',"",0x10,0,{{0}})
OP("const_1_tau","const",0,0,"1_TAU",'f',"",0x10,0,{{0}})
OP("const_1_tauf","const",0,0,"1_TAU",'f',"",0x10,0,{{0}})
OP("const_2_tau","const",0,0,"2_TAU",'f',"",0x10,0,{{0}})
OP("const_2_tauf","const",0,0,"2_TAU",'f',"",0x10,0,{{0}})
OP("const_sqrt2","const",0,0,"SQRT2",'f',"",0x10,0,{{0}})
OP("const_sqrt2f","const",0,0,"SQRT2",'f',"",0x10,0,{{0}})
OP("const_sqrt1_2","const",0,0,"SQRT1_2",'f',"",0x10,0,{{0}})
OP("const_sqrt1_2f","const",0,0,"SQRT1_2",'f',"",0x10,0,{{0}})
OP("const_2_sqrtpif","const",0,0,"2_SQRTPI",'f',"",0x10,0,{{0}})
OP("const_2_sqrtpi","const",0,0,"2_SQRTPI",'f',"",0x10,0,{{0}})
OP("const_sqrttau","const",0,0,"SQRTTAU",'f',"",0x10,0,{{0}})
OP("const_pi_old","const",0,0,"PI",'f',"",0x10,0,{{0}})
OP("const_pi_2_old","const",0,0,"PI_2",'f',"",0x10,0,{{0}})
OP("const_pi_4_old","const",0,0,"PI_4",'f',"",0x10,0,{{0}})
OP("read_vec2s","const",2,4,"fields",'v',"",0x10800000,2,{{'P',2,1,T_V,'i',0,"v"},{'P',8,1,T_V,'o',0,"dest"}})
OP("write_vec2s","const",2,4,"setfields",'v',"",0x10800000,2,{{'P',8,1,T_V,'i',0,"v"},{'P',8,1,T_V,'o',0,"dest"}})
OP("read_vec3s","const",3,2,"fields",'v',"",0x10800000,2,{{'P',3,1,T_V,'i',0,"v"},{'P',6,1,T_V,'o',0,"dest"}})
OP("write_vec3s","const",3,2,"setfields",'v',"",0x10800000,2,{{'P',6,1,T_V,'i',0,"v"},{'P',6,1,T_V,'o',0,"dest"}})
OP("read_vec4s","const",4,2,"fields",'v',"",0x10800000,2,{{'P',4,4,T_V,'i',0,"v"},{'P',8,4,T_V,'o',0,"dest"}})
OP("write_vec4s","const",4,2,"setfields",'v',"",0x10800000,2,{{'P',8,4,T_V,'i',0,"v"},{'P',8,4,T_V,'o',0,"dest"}})
OP("read_versors","const",4,2,"fields",'v',"",0x10800000,2,{{'P',4,4,T_V,'i',0,"v"},{'P',8,4,T_V,'o',0,"dest"}})
OP("write_versors","const",4,2,"setfields",'v',"",0x10800000,2,{{'P',8,4,T_V,'i',0,"v"},{'P',8,4,T_V,'o',0,"dest"}})
OP("read_ivec2s","const",2,4,"fields",'v',"",0x10800000,2,{{'P',2,1,T_V,'i',1,"v"},{'P',8,1,T_V,'o',1,"dest"}})
OP("write_ivec2s","const",2,4,"setfields",'v',"",0x10800000,2,{{'P',8,1,T_V,'i',1,"v"},{'P',8,1,T_V,'o',1,"dest"}})
OP("read_ivec3s","const",3,2,"fields",'v',"",0x10800000,2,{{'P',3,1,T_V,'i',1,"v"},{'P',6,1,T_V,'o',1,"dest"}})
OP("write_ivec3s","const",3,2,"setfields",'v',"",0x10800000,2,{{'P',6,1,T_V,'i',1,"v"},{'P',6,1,T_V,'o',1,"dest"}})
OP("read_ivec4s","const",4,2,"fields",'v',"",0x10800000,2,{{'P',4,1,T_V,'i',1,"v"},{'P',8,1,T_V,'o',1,"dest"}})
OP("write_ivec4s","const",4,2,"setfields",'v',"",0x10800000,2,{{'P',8,1,T_V,'i',1,"v"},{'P',8,1,T_V,'o',1,"dest"}})
OP("read_mat2s","const",4,2,"fields",'v',"",0x10800000,2,{{'P',4,4,T_V,'i',0,"v"},{'P',8,4,T_V,'o',0,"dest"}})
OP("write_mat2s","const",4,2,"setfields",'v',"",0x10800000,2,{{'P',8,4,T_V,'i',0,"v"},{'P',8,4,T_V,'o',0,"dest"}})
OP("read_mat2x3s","const",6,2,"fields",'v',"",0x10800000,2,{{'P',6,1,T_V,'i',0,"v"},{'P',12,1,T_V,'o',0,"dest"}})
OP("write_mat2x3s","const",6,2,"setfields",'v',"",0x10800000,2,{{'P',12,1,T_V,'i',0,"v"},{'P',12,1,T_V,'o',0,"dest"}})
OP("read_mat2x4s","const",8,2,"fields",'v',"",0x10800000,2,{{'P',8,4,T_V,'i',0,"v"},{'P',16,4,T_V,'o',0,"dest"}})
OP("write_mat2x4s","const",8,2,"setfields",'v',"",0x10800000,2,{{'P',16,4,T_V,'i',0,"v"},{'P',16,4,T_V,'o',0,"dest"}})
OP("read_mat3x2s","const",6,2,"fields",'v',"",0x10800000,2,{{'P',6,1,T_V,'i',0,"v"},{'P',12,1,T_V,'o',0,"dest"}})
OP("write_mat3x2s","const",6,2,"setfields",'v',"",0x10800000,2,{{'P',12,1,T_V,'i',0,"v"},{'P',12,1,T_V,'o',0,"dest"}})
OP("read_mat3s","const",9,2,"fields",'v',"",0x10800000,2,{{'P',9,1,T_V,'i',0,"v"},{'P',18,1,T_V,'o',0,"dest"}})
OP("write_mat3s","const",9,2,"setfields",'v',"",0x10800000,2,{{'P',18,1,T_V,'i',0,"v"},{'P',18,1,T_V,'o',0,"dest"}})
OP("read_mat3x4s","const",12,2,"fields",'v',"",0x10800000,2,{{'P',12,4,T_V,'i',0,"v"},{'P',24,4,T_V,'o',0,"dest"}})
OP("write_mat3x4s","const",12,2,"setfields",'v',"",0x10800000,2,{{'P',24,4,T_V,'i',0,"v"},{'P',24,4,T_V,'o',0,"dest"}})
OP("read_mat4x2s","const",8,2,"fields",'v',"",0x10800000,2,{{'P',8,1,T_V,'i',0,"v"},{'P',16,1,T_V,'o',0,"dest"}})
OP("write_mat4x2s","const",8,2,"setfields",'v',"",0x10800000,2,{{'P',16,1,T_V,'i',0,"v"},{'P',16,1,T_V,'o',0,"dest"}})
OP("read_mat4x3s","const",12,2,"fields",'v',"",0x10800000,2,{{'P',12,1,T_V,'i',0,"v"},{'P',24,1,T_V,'o',0,"dest"}})
OP("write_mat4x3s","const",12,2,"setfields",'v',"",0x10800000,2,{{'P',24,1,T_V,'i',0,"v"},{'P',24,1,T_V,'o',0,"dest"}})
OP("read_mat4s","const",16,2,"fields",'v',"",0x10800000,2,{{'P',16,8,T_V,'i',0,"v"},{'P',32,8,T_V,'o',0,"dest"}})
OP("write_mat4s","const",16,2,"setfields",'v',"",0x10800000,2,{{'P',32,8,T_V,'i',0,"v"},{'P',32,8,T_V,'o',0,"dest"}})
OP("layout_vec2","const",2,1,"layout",'v',"",0x10000000,1,{{'P',14,1,T_V,'o',1,"dest"}})
OP("layout_vec2s","const",2,1,"layout",'v',"",0x10000000,1,{{'P',14,1,T_V,'o',1,"dest"}})
OP("layout_vec3","const",3,1,"layout",'v',"",0x10000000,1,{{'P',13,1,T_V,'o',1,"dest"}})
OP("layout_vec3s","const",3,1,"layout",'v',"",0x10000000,1,{{'P',13,1,T_V,'o',1,"dest"}})
OP("layout_vec4","const",4,1,"layout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_vec4s","const",4,1,"layout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_ivec2","const",2,1,"ilayout",'v',"",0x10000000,1,{{'P',14,1,T_V,'o',1,"dest"}})
OP("layout_ivec2s","const",2,1,"ilayout",'v',"",0x10000000,1,{{'P',14,1,T_V,'o',1,"dest"}})
OP("layout_ivec3","const",3,1,"ilayout",'v',"",0x10000000,1,{{'P',13,1,T_V,'o',1,"dest"}})
OP("layout_ivec3s","const",3,1,"ilayout",'v',"",0x10000000,1,{{'P',13,1,T_V,'o',1,"dest"}})
OP("layout_ivec4","const",4,1,"ilayout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_ivec4s","const",4,1,"ilayout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_versor","const",4,1,"layout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_versors","const",4,1,"layout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_mat2","const",2,2,"layout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_mat2s","const",2,2,"layout",'v',"",0x10000000,1,{{'P',16,1,T_V,'o',1,"dest"}})
OP("layout_mat3","const",3,3,"layout",'v',"",0x10000000,1,{{'P',31,1,T_V,'o',1,"dest"}})
OP("layout_mat3s","const",3,3,"layout",'v',"",0x10000000,1,{{'P',31,1,T_V,'o',1,"dest"}})
OP("layout_mat4","const",4,4,"layout",'v',"",0x10000000,1,{{'P',52,1,T_V,'o',1,"dest"}})
OP("layout_mat4s","const",4,4,"layout",'v',"",0x10000000,1,{{'P',52,1,T_V,'o',1,"dest"}})
OP("layout_mat2x3","const",3,2,"layout",'v',"",0x10000000,1,{{'P',22,1,T_V,'o',1,"dest"}})
OP("layout_mat2x3s","const",3,2,"layout",'v',"",0x10000000,1,{{'P',22,1,T_V,'o',1,"dest"}})
OP("layout_mat2x4","const",4,2,"layout",'v',"",0x10000000,1,{{'P',28,1,T_V,'o',1,"dest"}})
OP("layout_mat2x4s","const",4,2,"layout",'v',"",0x10000000,1,{{'P',28,1,T_V,'o',1,"dest"}})
OP("layout_mat3x2","const",2,3,"layout",'v',"",0x10000000,1,{{'P',22,1,T_V,'o',1,"dest"}})
OP("layout_mat3x2s","const",2,3,"layout",'v',"",0x10000000,1,{{'P',22,1,T_V,'o',1,"dest"}})
OP("layout_mat3x4","const",4,3,"layout",'v',"",0x10000000,1,{{'P',40,1,T_V,'o',1,"dest"}})
OP("layout_mat3x4s","const",4,3,"layout",'v',"",0x10000000,1,{{'P',40,1,T_V,'o',1,"dest"}})
OP("layout_mat4x2","const",2,4,"layout",'v',"",0x10000000,1,{{'P',28,1,T_V,'o',1,"dest"}})
OP("layout_mat4x2s","const",2,4,"layout",'v',"",0x10000000,1,{{'P',28,1,T_V,'o',1,"dest"}})
OP("layout_mat4x3","const",3,4,"layout",'v',"",0x10000000,1,{{'P',40,1,T_V,'o',1,"dest"}})
OP("layout_mat4x3s","const",3,4,"layout",'v',"",0x10000000,1,{{'P',40,1,T_V,'o',1,"dest"}})
OP("simd_abs","simd",4,0,"abs",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_vhadd","simd",4,0,"vhadd",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_min","simd",4,0,"min",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_max","simd",4,0,"max",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_vdot","simd",4,0,"vdot",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_div","simd",4,0,"div",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_hadd","simd",4,0,"hadd",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_hmin","simd",4,0,"hmin",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_hmax","simd",4,0,"hmax",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_norm","simd",4,0,"norm",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_norm2","simd",4,0,"norm2",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_norm_one","simd",4,0,"norm_one",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_norm_inf","simd",4,0,"norm_inf",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_dot","simd",4,0,"dot",'f',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"}})
OP("simd_vhadds","simd",4,0,"hadd",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_vhmin","simd",4,0,"hmin",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_vhmax","simd",4,0,"hmax",'f',"",0x1000000,1,{{'P',4,4,T_V,'i',0,"a"}})
OP("simd_vdots","simd",4,0,"dot",'f',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"}})
OP("simd_fmadd","simd",4,0,"fmadd",'v',"",0x1000000,4,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'i',0,"c"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_256_fmadd","simd",8,0,"fmadd",'v',"",0x1000000,4,{{'P',8,8,T_V,'i',0,"a"},{'P',8,8,T_V,'i',0,"b"},{'P',8,8,T_V,'i',0,"c"},{'P',8,8,T_V,'o',0,"dest"}})
OP("simd_fnmadd","simd",4,0,"fnmadd",'v',"",0x1000000,4,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'i',0,"c"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_256_fnmadd","simd",8,0,"fnmadd",'v',"",0x1000000,4,{{'P',8,8,T_V,'i',0,"a"},{'P',8,8,T_V,'i',0,"b"},{'P',8,8,T_V,'i',0,"c"},{'P',8,8,T_V,'o',0,"dest"}})
OP("simd_fmsub","simd",4,0,"fmsub",'v',"",0x1000000,4,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'i',0,"c"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_256_fmsub","simd",8,0,"fmsub",'v',"",0x1000000,4,{{'P',8,8,T_V,'i',0,"a"},{'P',8,8,T_V,'i',0,"b"},{'P',8,8,T_V,'i',0,"c"},{'P',8,8,T_V,'o',0,"dest"}})
OP("simd_fnmsub","simd",4,0,"fnmsub",'v',"",0x1000000,4,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'i',0,"c"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_256_fnmsub","simd",8,0,"fnmsub",'v',"",0x1000000,4,{{'P',8,8,T_V,'i',0,"a"},{'P',8,8,T_V,'i',0,"b"},{'P',8,8,T_V,'i',0,"c"},{'P',8,8,T_V,'o',0,"dest"}})
OP("simd_load3","simd",3,0,"load3",'v',"",0x1000000,2,{{'P',3,1,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_store3","simd",3,0,"store3",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',3,1,T_V,'o',0,"dest"}})
OP("simd_splat_x","simd",0,0,"splat",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_splat_y","simd",1,0,"splat",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_splat_z","simd",2,0,"splat",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_splat_w","simd",3,0,"splat",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_shuff_0123","simd",27,0,"shuff",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_shuff_3210","simd",228,0,"shuff",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_shuff_2031","simd",141,0,"shuff",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_shuff_1133","simd",95,0,"shuff",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_set1","simd",0,0,"splat",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_set1_ptr","simd",1,0,"splat",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_set1_rval","simd",2,0,"splat",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_combine_ll","simd",0,0,"combine",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_combine_hl","simd",8,0,"combine",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_combine_lh","simd",2,0,"combine",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_combine_hh","simd",10,0,"combine",'v',"",0x1000000,3,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'i',0,"b"},{'P',4,4,T_V,'o',0,"dest"}})
OP("simd_swplane","simd",78,0,"shuff",'v',"",0x1000000,2,{{'P',4,4,T_V,'i',0,"a"},{'P',4,4,T_V,'o',0,"dest"}})
