"""Which members the glTF specification and the supported extensions allow in which object, written down independently of the library."""
TEXTURE = ["extensions", "index", "texCoord"]
TRANSFORM = ["offset", "rotation", "scale", "texCoord"]
MEMBERS = {
 'materials[].extensions.KHR_materials_unlit': [],
 'nodes[].extensions.KHR_physics_rigid_bodies': "collider joint motion trigger".split(),
 '': "accessors animations asset bufferViews buffers cameras extensions extensionsRequired extensionsUsed images materials meshes nodes samplers scene scenes skins textures".split(),
 'accessors[]': "bufferView byteOffset componentType count max min name normalized sparse type".split(),
 'accessors[].sparse': "count indices values".split(),
 'accessors[].sparse.indices': "bufferView byteOffset componentType".split(),
 'accessors[].sparse.values': "bufferView byteOffset".split(),
 'animations[]': "channels name samplers".split(),
 'animations[].channels[]': "sampler target".split(),
 'animations[].channels[].target': "node path".split(),
 'animations[].samplers[]': "input interpolation output".split(),
 'asset': "copyright generator minVersion version".split(),
 'bufferViews[]': "buffer byteLength byteOffset byteStride extensions name target".split(),
 'bufferViews[].extensions': "EXT_meshopt_compression".split(),
 'bufferViews[].extensions.EXT_meshopt_compression': "buffer byteLength byteOffset byteStride count filter mode".split(),
 'buffers[]': "byteLength extensions name uri".split(),
 'buffers[].extensions': "EXT_meshopt_compression".split(),
 'buffers[].extensions.EXT_meshopt_compression': "fallback".split(),
 'cameras[]': "name orthographic perspective type".split(),
 'cameras[].orthographic': "xmag ymag zfar znear".split(),
 'cameras[].perspective': "aspectRatio yfov zfar znear".split(),
 'extensions': "KHR_implicit_shapes KHR_lights_punctual KHR_materials_variants KHR_physics_rigid_bodies".split(),
 'extensions.KHR_implicit_shapes': "shapes".split(),
 'extensions.KHR_implicit_shapes.shapes[]': "box capsule cylinder sphere type".split(),
 'extensions.KHR_implicit_shapes.shapes[].box': "size".split(),
 'extensions.KHR_implicit_shapes.shapes[].capsule': "height radiusBottom radiusTop".split(),
 'extensions.KHR_implicit_shapes.shapes[].cylinder': "height radiusBottom radiusTop".split(),
 'extensions.KHR_implicit_shapes.shapes[].sphere': "radius".split(),
 'extensions.KHR_lights_punctual': "lights".split(),
 'extensions.KHR_lights_punctual.lights[]': "color intensity name range spot type".split(),
 'extensions.KHR_lights_punctual.lights[].spot': "innerConeAngle outerConeAngle".split(),
 'extensions.KHR_materials_variants': "variants".split(),
 'extensions.KHR_materials_variants.variants[]': "name".split(),
 'extensions.KHR_physics_rigid_bodies': "collisionFilters physicsJoints physicsMaterials".split(),
 'extensions.KHR_physics_rigid_bodies.collisionFilters[]': "collideWithSystems collisionSystems notCollideWithSystems".split(),
 'extensions.KHR_physics_rigid_bodies.physicsJoints[]': "drives limits".split(),
 'extensions.KHR_physics_rigid_bodies.physicsJoints[].drives[]': "axis damping maxForce mode positionTarget stiffness type velocityTarget".split(),
 'extensions.KHR_physics_rigid_bodies.physicsJoints[].limits[]': "angularAxes damping linearAxes max min stiffness".split(),
 'extensions.KHR_physics_rigid_bodies.physicsMaterials[]': "dynamicFriction frictionCombine restitution restitutionCombine staticFriction".split(),
 'images[]': "bufferView mimeType name uri".split(),
 'materials[]': "alphaCutoff alphaMode doubleSided emissiveFactor emissiveTexture extensions name normalTexture occlusionTexture pbrMetallicRoughness".split(),
 'materials[].extensions': "KHR_materials_anisotropy KHR_materials_clearcoat KHR_materials_diffuse_transmission KHR_materials_dispersion KHR_materials_emissive_strength KHR_materials_ior KHR_materials_iridescence KHR_materials_pbrSpecularGlossiness KHR_materials_sheen KHR_materials_specular KHR_materials_transmission KHR_materials_unlit KHR_materials_volume MSFT_packing_normalRoughnessMetallic MSFT_packing_occlusionRoughnessMetallic".split(),
 'materials[].extensions.KHR_materials_anisotropy': "anisotropyRotation anisotropyStrength anisotropyTexture".split(),
 'materials[].extensions.KHR_materials_clearcoat': "clearcoatFactor clearcoatNormalTexture clearcoatRoughnessFactor clearcoatRoughnessTexture clearcoatTexture".split(),
 'materials[].extensions.KHR_materials_clearcoat.clearcoatNormalTexture': "extensions index scale texCoord".split(),
 'materials[].extensions.KHR_materials_diffuse_transmission': "diffuseTransmissionColorFactor diffuseTransmissionColorTexture diffuseTransmissionFactor diffuseTransmissionTexture".split(),
 'materials[].extensions.KHR_materials_dispersion': "dispersion".split(),
 'materials[].extensions.KHR_materials_emissive_strength': "emissiveStrength".split(),
 'materials[].extensions.KHR_materials_ior': "ior".split(),
 'materials[].extensions.KHR_materials_iridescence': "iridescenceFactor iridescenceIor iridescenceTexture iridescenceThicknessMaximum iridescenceThicknessMinimum iridescenceThicknessTexture".split(),
 'materials[].extensions.KHR_materials_pbrSpecularGlossiness': "diffuseFactor diffuseTexture glossinessFactor specularFactor specularGlossinessTexture".split(),
 'materials[].extensions.KHR_materials_sheen': "sheenColorFactor sheenColorTexture sheenRoughnessFactor sheenRoughnessTexture".split(),
 'materials[].extensions.KHR_materials_specular': "specularColorFactor specularColorTexture specularFactor specularTexture".split(),
 'materials[].extensions.KHR_materials_transmission': "transmissionFactor transmissionTexture".split(),
 'materials[].extensions.KHR_materials_volume': "attenuationColor attenuationDistance thicknessFactor thicknessTexture".split(),
 'materials[].extensions.MSFT_packing_normalRoughnessMetallic': "normalRoughnessMetallicTexture".split(),
 'materials[].extensions.MSFT_packing_occlusionRoughnessMetallic': "normalTexture occlusionRoughnessMetallicTexture roughnessMetallicOcclusionTexture".split(),
 'materials[].normalTexture': "extensions index scale texCoord".split(),
 'materials[].occlusionTexture': "extensions index strength texCoord".split(),
 'materials[].pbrMetallicRoughness': "baseColorFactor baseColorTexture metallicFactor metallicRoughnessTexture roughnessFactor".split(),
 'meshes[]': "name primitives weights".split(),
 'meshes[].primitives[]': "attributes extensions indices material mode targets".split(),
 'meshes[].primitives[].extensions': "KHR_draco_mesh_compression KHR_materials_variants".split(),
 'meshes[].primitives[].extensions.KHR_draco_mesh_compression': "attributes bufferView".split(),
 'meshes[].primitives[].extensions.KHR_materials_variants': "mappings".split(),
 'meshes[].primitives[].extensions.KHR_materials_variants.mappings[]': "material variants".split(),
 'nodes[]': "camera children extensions matrix mesh name rotation scale skin translation weights".split(),
 'nodes[].extensions': "EXT_mesh_gpu_instancing KHR_lights_punctual KHR_node_hoverability KHR_node_selectability KHR_node_visibility KHR_physics_rigid_bodies".split(),
 'nodes[].extensions.EXT_mesh_gpu_instancing': "attributes".split(),
 'nodes[].extensions.KHR_lights_punctual': "light".split(),
 'nodes[].extensions.KHR_node_hoverability': "hoverable".split(),
 'nodes[].extensions.KHR_node_selectability': "selectable".split(),
 'nodes[].extensions.KHR_node_visibility': "visible".split(),
 'nodes[].extensions.KHR_physics_rigid_bodies': "collider joint motion trigger".split(),
 'nodes[].extensions.KHR_physics_rigid_bodies.collider': "collisionFilter geometry physicsMaterial".split(),
 'nodes[].extensions.KHR_physics_rigid_bodies.collider.geometry': "convexHull node shape".split(),
 'nodes[].extensions.KHR_physics_rigid_bodies.joint': "connectedNode enableCollision joint".split(),
 'nodes[].extensions.KHR_physics_rigid_bodies.motion': "angularVelocity centerOfMass gravityFactor inertiaDiagonal inertiaOrientation isKinematic linearVelocity mass".split(),
 'nodes[].extensions.KHR_physics_rigid_bodies.trigger': "collisionFilter geometry nodes".split(),
 'nodes[].extensions.KHR_physics_rigid_bodies.trigger.geometry': "convexHull node shape".split(),
 'samplers[]': "magFilter minFilter name wrapS wrapT".split(),
 'scenes[]': "name nodes".split(),
 'skins[]': "inverseBindMatrices joints name skeleton".split(),
 'textures[]': "extensions name sampler source".split(),
 'textures[].extensions': "EXT_texture_webp KHR_texture_basisu MSFT_texture_dds".split(),
 'textures[].extensions.EXT_texture_webp': "source".split(),
 'textures[].extensions.KHR_texture_basisu': "source".split(),
 'textures[].extensions.MSFT_texture_dds': "source".split(),
}
FREE = ("attributes", "targets[]")   # objects whose member names are attribute semantics
EXTRAS = {"accessors[]": "accessors", "animations[]": "animations", "buffers[]": "buffers", "bufferViews[]": "bufferViews", "cameras[]": "cameras", "images[]": "images", "materials[]": "materials", "meshes[]": "meshes",
          "nodes[]": "nodes", "samplers[]": "samplers", "scenes[]": "scenes", "skins[]": "skins", "textures[]": "textures", "extensions.KHR_implicit_shapes.shapes[]": "shapes",
          "extensions.KHR_physics_rigid_bodies.physicsMaterials[]": "physicsMaterials", "extensions.KHR_physics_rigid_bodies.collisionFilters[]": "collisionFilters", "extensions.KHR_physics_rigid_bodies.physicsJoints[]": "physicsJoints"}
def members(path):
    if path in MEMBERS: return MEMBERS[path]
    last = path.rsplit(".", 1)[-1]
    if last.endswith("Texture"): return TEXTURE
    if path.endswith("Texture.extensions"): return ["KHR_texture_transform"]
    if last == "KHR_texture_transform": return TRANSFORM
    return None
def violations(doc, extras=False):
    """(kind, path) of every member where the specification has none, and of required members that are missing."""
    from .faults import REQ
    out = []
    def go(o, p):
        if isinstance(o, list):
            for x in o: go(x, p + "[]")
        elif isinstance(o, dict):
            if p.endswith(FREE):
                for k, v in o.items():
                    if not isinstance(v, int) or isinstance(v, bool): out.append(("attribute", p + "." + k))
                return
            allowed = members(p)
            if allowed is None: out.append(("object", p)); return
            for k, v in o.items():
                if k == "extras" and extras and p in EXTRAS: continue
                if k not in allowed: out.append(("member", p + "." + k)); continue
                go(v, (p + "." + k).lstrip("."))
            for k in REQ.get(p, ()):
                if k not in o: out.append(("missing", p + "." + k))
    go(doc, "")
    return out
