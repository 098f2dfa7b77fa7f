"aabb2d_crop_until:2:3",
"aabb_crop_until:2:3",
"mat2_transpose_to:0:1",
"mat2x3_transpose:0:1",
"mat2x4_transpose:0:1",
"mat3_transpose_to:0:1",
"mat3x2_transpose:0:1",
"mat3x4_transpose:0:1",
"mat4_transpose_to:0:1",
"mat4x2_transpose:0:1",
"mat4x3_transpose:0:1",
"vec2_refract:1:3",
"vec3_refract:1:3",
"vec4_refract:1:3",
"mul_rot:0:1",
