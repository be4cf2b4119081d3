"""glTF tables, from the specification (not from the library)."""
EXT = {
 "KHR_texture_transform":1<<1,"KHR_texture_basisu":1<<2,"MSFT_texture_dds":1<<3,"KHR_mesh_quantization":1<<4,"EXT_meshopt_compression":1<<5,
 "KHR_lights_punctual":1<<6,"EXT_texture_webp":1<<8,"KHR_materials_specular":1<<9,"KHR_materials_ior":1<<10,"KHR_materials_iridescence":1<<11,
 "KHR_materials_volume":1<<12,"KHR_materials_transmission":1<<13,"KHR_materials_clearcoat":1<<14,"KHR_materials_emissive_strength":1<<15,
 "KHR_materials_sheen":1<<16,"KHR_materials_unlit":1<<17,"KHR_materials_anisotropy":1<<18,"EXT_mesh_gpu_instancing":1<<19,
 "KHR_materials_pbrSpecularGlossiness":1<<20,"MSFT_packing_normalRoughnessMetallic":1<<21,"MSFT_packing_occlusionRoughnessMetallic":1<<22,
 "KHR_materials_dispersion":1<<23,"KHR_materials_variants":1<<24,"KHR_accessor_float64":1<<25,"KHR_draco_mesh_compression":1<<26,
 "KHR_implicit_shapes":1<<27,"KHR_physics_rigid_bodies":1<<28,"GODOT_single_root":1<<29,"KHR_materials_diffuse_transmission":1<<30,
 "KHR_node_visibility":1<<31,"KHR_node_selectability":1<<32,"KHR_node_hoverability":1<<33,
}
ALL_EXT = sum(EXT.values())
CAT = {"buffers":1<<0,"bufferViews":1<<1,"accessors":1<<2,"images":1<<3,"samplers":1<<4,"textures":1<<5,"animations":1<<6,"cameras":1<<7,
 "materials":1<<8,"meshes":1<<9,"skins":1<<10,"nodes":1<<11,"scenes":1<<12,"asset":1<<13,"shapes":1<<14,"physicsMaterials":1<<15,"collisionFilters":1<<16,"physicsJoints":1<<17}
CAT_ALL = 0xffffffff
OPT = {"AllowDouble":1,"DontRequireValidAssetMember":2,"LoadExternalBuffers":16,"DecomposeNodeMatrices":32,"LoadExternalImages":128,"GenerateMeshIndices":256}
COMP_SIZE = {5120:1,5121:1,5122:2,5123:2,5124:4,5125:4,5126:4,5130:8}
TYPE_N = {"SCALAR":1,"VEC2":2,"VEC3":3,"VEC4":4,"MAT2":4,"MAT3":9,"MAT4":16}
TYPE_ROWS = {"SCALAR":1,"VEC2":2,"VEC3":3,"VEC4":4,"MAT2":2,"MAT3":3,"MAT4":4}
def elem_size(t, c):
    cs = COMP_SIZE[c]
    if t.startswith("MAT"):
        r = TYPE_ROWS[t]; col = r*cs; col = (col+3)//4*4
        return col*r
    return TYPE_N[t]*cs
MIME = {"image/jpeg":"JPEG","image/png":"PNG","image/ktx2":"KTX2","image/vnd-ms.dds":"DDS","application/gltf-buffer":"GltfBuffer","application/octet-stream":"OctetStream","image/webp":"WEBP"}
MIME_NUM = {"None":0,"JPEG":1,"PNG":2,"KTX2":3,"DDS":4,"GltfBuffer":5,"OctetStream":6,"WEBP":7}
