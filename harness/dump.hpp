// Canonical dump of every public member of a fastgltf::Asset.
#pragma once
#include <fastgltf/core.hpp>
#include "jsonw.hpp"
#include <map>
namespace fg = fastgltf;

inline std::uint64_t fnv(const std::byte* p, std::size_t n) {
	std::uint64_t h = 1469598103934665603ULL;
	for (std::size_t i = 0; i < n; ++i) { h ^= static_cast<std::uint8_t>(p[i]); h *= 1099511628211ULL; }
	return h;
}
inline std::string hexbytes(const std::byte* p, std::size_t n) {
	static const char* d = "0123456789abcdef";
	std::string r; r.reserve(n * 2);
	for (std::size_t i = 0; i < n; ++i) { auto c = static_cast<std::uint8_t>(p[i]); r += d[c >> 4]; r += d[c & 15]; }
	return r;
}
inline std::string bytesRepr(const std::byte* p, std::size_t n) {
	char b[64]; std::snprintf(b, 64, "%zu:%016llx", n, (unsigned long long)fnv(p, n));
	std::string r = b;
	if (n <= 256) { r += ":"; r += hexbytes(p, n); }
	return r;
}
inline const char* mimeName(fg::MimeType m) {
	switch (m) {
		case fg::MimeType::None: return "None"; case fg::MimeType::JPEG: return "JPEG"; case fg::MimeType::PNG: return "PNG";
		case fg::MimeType::KTX2: return "KTX2"; case fg::MimeType::DDS: return "DDS"; case fg::MimeType::GltfBuffer: return "GltfBuffer";
		case fg::MimeType::OctetStream: return "OctetStream"; case fg::MimeType::WEBP: return "WEBP";
	}
	return "BAD";
}
inline std::string compName(fg::ComponentType c) {
	switch (c) {
		case fg::ComponentType::Invalid: return "0"; case fg::ComponentType::Byte: return "5120"; case fg::ComponentType::UnsignedByte: return "5121";
		case fg::ComponentType::Short: return "5122"; case fg::ComponentType::UnsignedShort: return "5123"; case fg::ComponentType::Int: return "5124";
		case fg::ComponentType::UnsignedInt: return "5125"; case fg::ComponentType::Float: return "5126"; case fg::ComponentType::Double: return "5130";
	}
	return "BAD" + std::to_string((unsigned)c);
}
inline std::string typeName(fg::AccessorType t) {
	switch (t) {
		case fg::AccessorType::Invalid: return "INVALID"; case fg::AccessorType::Scalar: return "SCALAR"; case fg::AccessorType::Vec2: return "VEC2";
		case fg::AccessorType::Vec3: return "VEC3"; case fg::AccessorType::Vec4: return "VEC4"; case fg::AccessorType::Mat2: return "MAT2";
		case fg::AccessorType::Mat3: return "MAT3"; case fg::AccessorType::Mat4: return "MAT4";
	}
	return "BAD" + std::to_string((unsigned)t);
}
template <typename E> long long ev(E e) { return static_cast<long long>(static_cast<std::underlying_type_t<E>>(e)); }

inline const char* errName(fg::Error e) {
	switch (e) {
		case fg::Error::None: return "None"; case fg::Error::InvalidPath: return "InvalidPath"; case fg::Error::MissingExtensions: return "MissingExtensions";
		case fg::Error::UnknownRequiredExtension: return "UnknownRequiredExtension"; case fg::Error::InvalidJson: return "InvalidJson";
		case fg::Error::InvalidGltf: return "InvalidGltf"; case fg::Error::InvalidOrMissingAssetField: return "InvalidOrMissingAssetField";
		case fg::Error::InvalidGLB: return "InvalidGLB"; case fg::Error::MissingField: return "MissingField";
		case fg::Error::MissingExternalBuffer: return "MissingExternalBuffer"; case fg::Error::UnsupportedVersion: return "UnsupportedVersion";
		case fg::Error::InvalidURI: return "InvalidURI"; case fg::Error::InvalidFileData: return "InvalidFileData";
		case fg::Error::FailedWritingFiles: return "FailedWritingFiles"; case fg::Error::FileBufferAllocationFailed: return "FileBufferAllocationFailed";
	}
	return "BADERROR";
}

struct Dumper {
	JW w;
	template <typename O> void optIdx(const char* k, const O& o) { if (o.has_value()) w.kv(k, static_cast<std::size_t>(*o)); }
	template <typename O> void optNum(const char* k, const O& o) { if (o.has_value()) w.kv(k, static_cast<double>(*o)); }
	template <typename S> void name(const S& n) { w.kv("name", std::string_view(n)); }
	template <typename V> void idxs(const char* k, const V& v) {
		w.key(k); w.arr(); for (auto& i : v) { w.elem(); w.integer(static_cast<std::uint64_t>(i)); w.first = false; } w.endarr();
	}
	template <typename V> void nums(const char* k, const V& v) {
		w.key(k); w.arr(); for (auto& i : v) { w.elem(); w.num(static_cast<double>(i)); w.first = false; } w.endarr();
	}
	template <typename V> void strs(const char* k, const V& v) {
		w.key(k); w.arr(); for (auto& i : v) { w.elem(); w.str(std::string_view(i)); w.first = false; } w.endarr();
	}
	template <typename V> void vec(const char* k, const V& v) {
		w.key(k); w.arr(); for (std::size_t i = 0; i < v.size(); ++i) { w.elem(); w.num(static_cast<double>(v[i])); w.first = false; } w.endarr();
	}
	template <typename V> void attrs(const char* k, const V& v) {
		w.key(k); w.arr();
		for (auto& a : v) { w.elem(); w.arr(); w.elem(); w.str(std::string_view(a.name)); w.first = false; w.elem(); w.integer(a.accessorIndex); w.first = false; w.endarr(); }
		w.endarr();
	}
	void texInfoBody(const fg::TextureInfo& t) {
		w.kv("index", t.textureIndex); w.kv("texCoord", t.texCoordIndex);
		if (t.transform) {
			w.key("transform"); w.obj();
			w.kv("rotation", (double)t.transform->rotation);
			vec("offset", t.transform->uvOffset); vec("scale", t.transform->uvScale);
			optIdx("texCoord", t.transform->texCoordIndex);
			w.endobj();
		}
	}
	template <typename O> void tex(const char* k, const O& o) {
		if (!o.has_value()) return;
		w.key(k); w.obj(); texInfoBody(*o); w.endobj();
	}
	void bounds(const char* k, const std::optional<fg::AccessorBoundsArray>& b) {
		if (!b) return;
		w.key(k); w.obj();
		if (b->isType<double>()) { w.kv("t", "f"); w.kvnums("v", b->data<double>(), b->size()); }
		else { w.kv("t", "i"); w.kvnums("v", b->data<std::int64_t>(), b->size()); }
		w.endobj();
	}
	std::map<std::uint64_t, std::string>* customBuffers = nullptr;
	void source(const fg::DataSource& ds) {
		w.key("data"); w.obj();
		std::visit([&](auto& d) {
			using T = std::decay_t<decltype(d)>;
			if constexpr (std::is_same_v<T, std::monostate>) w.kv("k", "monostate");
			else if constexpr (std::is_same_v<T, fg::sources::BufferView>) { w.kv("k", "view"); w.kv("view", d.bufferViewIndex); w.kv("mime", mimeName(d.mimeType)); }
			else if constexpr (std::is_same_v<T, fg::sources::URI>) {
				w.kv("k", "uri"); w.kv("offset", d.fileByteOffset); w.kv("uri", d.uri.string()); w.kv("path", d.uri.path()); w.kv("valid", d.uri.valid()); w.kv("local", d.uri.isLocalPath()); w.kv("mime", mimeName(d.mimeType));
			}
			else if constexpr (std::is_same_v<T, fg::sources::Array>) { w.kv("k", "array"); w.kv("bytes", bytesRepr(d.bytes.data(), d.bytes.size_bytes())); w.kv("mime", mimeName(d.mimeType)); }
			else if constexpr (std::is_same_v<T, fg::sources::Vector>) { w.kv("k", "vector"); w.kv("bytes", bytesRepr(d.bytes.data(), d.bytes.size())); w.kv("mime", mimeName(d.mimeType)); }
			else if constexpr (std::is_same_v<T, fg::sources::ByteView>) { w.kv("k", "byteview"); w.kv("bytes", bytesRepr(d.bytes.data(), d.bytes.size())); w.kv("mime", mimeName(d.mimeType)); }
			else if constexpr (std::is_same_v<T, fg::sources::CustomBuffer>) { w.kv("k", "custom"); w.kv("id", d.id); w.kv("mime", mimeName(d.mimeType)); }
			else w.kv("k", "fallback");
		}, ds);
		w.endobj();
	}
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	void geometry(const fg::Geometry& g) { w.key("geometry"); w.obj(); optIdx("shape", g.shape); optIdx("node", g.node); w.kv("convexHull", g.convexHull); w.endobj(); }
	void rigid(const fg::PhysicsRigidBody& b) {
		w.key("rigid"); w.obj();
		if (b.motion.has_value()) {
			auto& m = *b.motion; w.key("motion"); w.obj(); w.kv("isKinematic", m.isKinematic); optNum("mass", m.mass); vec("centerOfMass", m.centerOfMass);
			if (m.inertialDiagonal.has_value()) vec("inertialDiagonal", *m.inertialDiagonal);
			if (m.inertialOrientation.has_value()) vec("inertialOrientation", *m.inertialOrientation);
			vec("linearVelocity", m.linearVelocity); vec("angularVelocity", m.angularVelocity); w.kv("gravityFactor", (double)m.gravityFactor); w.endobj();
		}
		if (b.collider.has_value()) { w.key("collider"); w.obj(); geometry(b.collider->geometry); optIdx("material", b.collider->physicsMaterial); optIdx("filter", b.collider->collisionFilter); w.endobj(); }
		if (b.trigger.has_value()) {
			w.key("trigger"); w.obj();
			if (auto* g = std::get_if<fg::GeometryTrigger>(&*b.trigger)) { geometry(g->geometry); optIdx("filter", g->collisionFilter); }
			else idxs("nodes", std::get<fg::NodeTrigger>(*b.trigger).nodes);
			w.endobj();
		}
		if (b.joint.has_value()) { w.key("joint"); w.obj(); w.kv("connectedNode", b.joint->connectedNode); w.kv("joint", b.joint->joint); w.kv("enableCollision", b.joint->enableCollision); w.endobj(); }
		w.endobj();
	}
#endif
	template <typename V, typename F> void list(const char* k, const V& v, F f) {
		w.key(k); w.arr(); for (auto& e : v) { w.elem(); w.obj(); f(e); w.endobj(); } w.endarr();
	}
	std::string dump(const fg::Asset& a) {
		w.obj();
		if (a.assetInfo.has_value()) { w.key("asset"); w.obj(); w.kv("version", std::string_view(a.assetInfo->gltfVersion)); w.kv("copyright", std::string_view(a.assetInfo->copyright)); w.kv("generator", std::string_view(a.assetInfo->generator)); w.endobj(); }
		strs("extensionsUsed", a.extensionsUsed); strs("extensionsRequired", a.extensionsRequired);
		optIdx("scene", a.defaultScene);
		w.kv("categories", ev(a.availableCategories));
		list("accessors", a.accessors, [&](const fg::Accessor& x) {
			w.kv("byteOffset", x.byteOffset); w.kv("count", x.count); w.kv("type", typeName(x.type)); w.kv("componentType", compName(x.componentType)); w.kv("normalized", x.normalized);
			bounds("min", x.min); bounds("max", x.max); optIdx("bufferView", x.bufferViewIndex);
			if (x.sparse.has_value()) { auto& s = *x.sparse; w.key("sparse"); w.obj(); w.kv("count", s.count); w.kv("iv", s.indicesBufferView); w.kv("io", s.indicesByteOffset); w.kv("vv", s.valuesBufferView); w.kv("vo", s.valuesByteOffset); w.kv("ct", compName(s.indexComponentType)); w.endobj(); }
			name(x.name);
		});
		list("animations", a.animations, [&](const fg::Animation& x) {
			list("channels", x.channels, [&](const fg::AnimationChannel& c) { w.kv("sampler", c.samplerIndex); optIdx("node", c.nodeIndex); w.kv("path", ev(c.path)); });
			list("samplers", x.samplers, [&](const fg::AnimationSampler& s) { w.kv("input", s.inputAccessor); w.kv("output", s.outputAccessor); w.kv("interpolation", ev(s.interpolation)); });
			name(x.name);
		});
		list("buffers", a.buffers, [&](const fg::Buffer& x) { w.kv("byteLength", x.byteLength); source(x.data); name(x.name); });
		list("bufferViews", a.bufferViews, [&](const fg::BufferView& x) {
			w.kv("buffer", x.bufferIndex); w.kv("byteOffset", x.byteOffset); w.kv("byteLength", x.byteLength); optIdx("byteStride", x.byteStride);
			if (x.target.has_value()) w.kv("target", ev(*x.target));
			if (x.meshoptCompression) { auto& m = *x.meshoptCompression; w.key("meshopt"); w.obj(); w.kv("buffer", m.bufferIndex); w.kv("byteOffset", m.byteOffset); w.kv("byteLength", m.byteLength); w.kv("count", m.count); w.kv("mode", ev(m.mode)); w.kv("filter", ev(m.filter)); w.kv("byteStride", m.byteStride); w.endobj(); }
			name(x.name);
		});
		list("cameras", a.cameras, [&](const fg::Camera& x) {
			if (auto* p = std::get_if<fg::Camera::Perspective>(&x.camera)) { w.kv("type", "perspective"); optNum("aspectRatio", p->aspectRatio); w.kv("yfov", (double)p->yfov); optNum("zfar", p->zfar); w.kv("znear", (double)p->znear); }
			else { auto& o = std::get<fg::Camera::Orthographic>(x.camera); w.kv("type", "orthographic"); w.kv("xmag", (double)o.xmag); w.kv("ymag", (double)o.ymag); w.kv("zfar", (double)o.zfar); w.kv("znear", (double)o.znear); }
			name(x.name);
		});
		list("images", a.images, [&](const fg::Image& x) { source(x.data); name(x.name); });
		list("lights", a.lights, [&](const fg::Light& x) { w.kv("type", ev(x.type)); vec("color", x.color); w.kv("intensity", (double)x.intensity); optNum("range", x.range); optNum("inner", x.innerConeAngle); optNum("outer", x.outerConeAngle); name(x.name); });
		list("materials", a.materials, [&](const fg::Material& x) {
			w.key("pbr"); w.obj(); vec("baseColorFactor", x.pbrData.baseColorFactor); w.kv("metallicFactor", (double)x.pbrData.metallicFactor); w.kv("roughnessFactor", (double)x.pbrData.roughnessFactor); tex("baseColorTexture", x.pbrData.baseColorTexture); tex("metallicRoughnessTexture", x.pbrData.metallicRoughnessTexture); w.endobj();
			if (x.normalTexture.has_value()) { w.key("normalTexture"); w.obj(); texInfoBody(*x.normalTexture); w.kv("normalScale", (double)x.normalTexture->scale); w.endobj(); }
			if (x.occlusionTexture.has_value()) { w.key("occlusionTexture"); w.obj(); texInfoBody(*x.occlusionTexture); w.kv("strength", (double)x.occlusionTexture->strength); w.endobj(); }
			tex("emissiveTexture", x.emissiveTexture); vec("emissiveFactor", x.emissiveFactor); w.kv("alphaMode", ev(x.alphaMode)); w.kv("doubleSided", x.doubleSided); w.kv("unlit", x.unlit); w.kv("alphaCutoff", (double)x.alphaCutoff);
			w.kv("emissiveStrength", (double)x.emissiveStrength); w.kv("ior", (double)x.ior); w.kv("dispersion", (double)x.dispersion);
			if (auto& p = x.anisotropy) { w.key("anisotropy"); w.obj(); w.kv("strength", (double)p->anisotropyStrength); w.kv("rotation", (double)p->anisotropyRotation); tex("texture", p->anisotropyTexture); w.endobj(); }
			if (auto& p = x.clearcoat) { w.key("clearcoat"); w.obj(); w.kv("factor", (double)p->clearcoatFactor); tex("texture", p->clearcoatTexture); w.kv("roughness", (double)p->clearcoatRoughnessFactor); tex("roughnessTexture", p->clearcoatRoughnessTexture);
				if (p->clearcoatNormalTexture.has_value()) { w.key("normalTexture"); w.obj(); texInfoBody(*p->clearcoatNormalTexture); w.kv("normalScale", (double)p->clearcoatNormalTexture->scale); w.endobj(); } w.endobj(); }
			if (auto& p = x.diffuseTransmission) { w.key("diffuseTransmission"); w.obj(); w.kv("factor", (double)p->diffuseTransmissionFactor); tex("texture", p->diffuseTransmissionTexture); vec("colorFactor", p->diffuseTransmissionColorFactor); tex("colorTexture", p->diffuseTransmissionColorTexture); w.endobj(); }
			if (auto& p = x.iridescence) { w.key("iridescence"); w.obj(); w.kv("factor", (double)p->iridescenceFactor); tex("texture", p->iridescenceTexture); w.kv("ior", (double)p->iridescenceIor); w.kv("min", (double)p->iridescenceThicknessMinimum); w.kv("max", (double)p->iridescenceThicknessMaximum); tex("thicknessTexture", p->iridescenceThicknessTexture); w.endobj(); }
			if (auto& p = x.sheen) { w.key("sheen"); w.obj(); vec("color", p->sheenColorFactor); tex("colorTexture", p->sheenColorTexture); w.kv("roughness", (double)p->sheenRoughnessFactor); tex("roughnessTexture", p->sheenRoughnessTexture); w.endobj(); }
			if (auto& p = x.specular) { w.key("specular"); w.obj(); w.kv("factor", (double)p->specularFactor); tex("texture", p->specularTexture); vec("color", p->specularColorFactor); tex("colorTexture", p->specularColorTexture); w.endobj(); }
			if (auto& p = x.specularGlossiness) { w.key("specularGlossiness"); w.obj(); vec("diffuse", p->diffuseFactor); tex("diffuseTexture", p->diffuseTexture); vec("specular", p->specularFactor); w.kv("glossiness", (double)p->glossinessFactor); tex("texture", p->specularGlossinessTexture); w.endobj(); }
			if (auto& p = x.transmission) { w.key("transmission"); w.obj(); w.kv("factor", (double)p->transmissionFactor); tex("texture", p->transmissionTexture); w.endobj(); }
			if (auto& p = x.volume) { w.key("volume"); w.obj(); w.kv("thickness", (double)p->thicknessFactor); tex("texture", p->thicknessTexture); w.kv("distance", (double)p->attenuationDistance); vec("color", p->attenuationColor); w.endobj(); }
			tex("packedNRM", x.packedNormalMetallicRoughnessTexture);
			if (auto& p = x.packedOcclusionRoughnessMetallicTextures) { w.key("packedORM"); w.obj(); tex("orm", p->occlusionRoughnessMetallicTexture); tex("rmo", p->roughnessMetallicOcclusionTexture); tex("normal", p->normalTexture); w.endobj(); }
			name(x.name);
		});
		list("meshes", a.meshes, [&](const fg::Mesh& x) {
			list("primitives", x.primitives, [&](const fg::Primitive& p) {
				attrs("attributes", p.attributes); w.kv("mode", ev(p.type));
				w.key("targets"); w.arr(); for (auto& t : p.targets) { w.elem(); w.obj(); attrs("a", t); w.endobj(); } w.endarr();
				optIdx("indices", p.indicesAccessor); optIdx("material", p.materialIndex);
				w.key("mappings"); w.arr(); for (auto& m : p.mappings) { w.elem(); if (m.has_value()) w.integer(*m); else w.s += "null"; w.first = false; } w.endarr();
				if (p.dracoCompression) { w.key("draco"); w.obj(); w.kv("view", p.dracoCompression->bufferView); attrs("attributes", p.dracoCompression->attributes); w.endobj(); }
			});
			nums("weights", x.weights); name(x.name);
		});
		list("nodes", a.nodes, [&](const fg::Node& x) {
			optIdx("mesh", x.meshIndex); optIdx("skin", x.skinIndex); optIdx("camera", x.cameraIndex); optIdx("light", x.lightIndex);
			idxs("children", x.children); nums("weights", x.weights);
			if (auto* t = std::get_if<fg::TRS>(&x.transform)) { vec("t", t->translation); w.key("r"); w.arr(); for (int i = 0; i < 4; ++i) { w.elem(); w.num((double)t->rotation[i]); w.first = false; } w.endarr(); vec("s", t->scale); }
			else { auto& m = std::get<fg::math::fmat4x4>(x.transform); w.key("matrix"); w.arr(); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { w.elem(); w.num((double)m.col(c)[r]); w.first = false; } w.endarr(); }
			attrs("instancing", x.instancingAttributes); name(x.name);
			w.kv("visible", x.visible); w.kv("selectable", x.selectable); w.kv("hoverable", x.hoverable);
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
			if (x.physicsRigidBody) rigid(*x.physicsRigidBody);
#endif
		});
		list("samplers", a.samplers, [&](const fg::Sampler& x) { if (x.magFilter.has_value()) w.kv("mag", ev(*x.magFilter)); if (x.minFilter.has_value()) w.kv("min", ev(*x.minFilter)); w.kv("wrapS", ev(x.wrapS)); w.kv("wrapT", ev(x.wrapT)); name(x.name); });
		list("scenes", a.scenes, [&](const fg::Scene& x) { idxs("nodes", x.nodeIndices); name(x.name); });
		list("skins", a.skins, [&](const fg::Skin& x) { optIdx("ibm", x.inverseBindMatrices); optIdx("skeleton", x.skeleton); idxs("joints", x.joints); name(x.name); });
		list("textures", a.textures, [&](const fg::Texture& x) { optIdx("sampler", x.samplerIndex); optIdx("source", x.imageIndex); optIdx("basisu", x.basisuImageIndex); optIdx("dds", x.ddsImageIndex); optIdx("webp", x.webpImageIndex); name(x.name); });
		strs("variants", a.materialVariants);
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
		list("shapes", a.shapes, [&](const fg::Shape& x) {
			if (auto* s = std::get_if<fg::SphereShape>(&x)) { w.kv("type", "sphere"); w.kv("radius", (double)s->radius); }
			else if (auto* b = std::get_if<fg::BoxShape>(&x)) { w.kv("type", "box"); vec("size", b->size); }
			else if (auto* c = std::get_if<fg::CapsuleShape>(&x)) { w.kv("type", "capsule"); w.kv("height", (double)c->height); w.kv("bottom", (double)c->radiusBottom); w.kv("top", (double)c->radiusTop); }
			else { auto& c2 = std::get<fg::CylinderShape>(x); w.kv("type", "cylinder"); w.kv("height", (double)c2.height); w.kv("bottom", (double)c2.radiusBottom); w.kv("top", (double)c2.radiusTop); }
		});
#endif
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		list("physicsMaterials", a.physicsMaterials, [&](const fg::PhysicsMaterial& x) { w.kv("sf", (double)x.staticFriction); w.kv("df", (double)x.dynamicFriction); w.kv("restitution", (double)x.restitution); w.kv("fc", ev(x.frictionCombine)); w.kv("rc", ev(x.restitutionCombine)); });
		list("physicsJoints", a.physicsJoints, [&](const fg::PhysicsJoint& x) {
			list("limits", x.limits, [&](const fg::JointLimit& l) { idxs("linearAxes", l.linearAxes); idxs("angularAxes", l.angularAxes); optNum("min", l.min); optNum("max", l.max); optNum("stiffness", l.stiffness); w.kv("damping", (double)l.damping); });
			list("drives", x.drives, [&](const fg::JointDrive& d) { w.kv("type", ev(d.type)); w.kv("mode", ev(d.mode)); w.kv("axis", (unsigned)d.axis); w.kv("maxForce", (double)d.maxForce); w.kv("positionTarget", (double)d.positionTarget); w.kv("velocityTarget", (double)d.velocityTarget); w.kv("stiffness", (double)d.stiffness); w.kv("damping", (double)d.damping); });
		});
		list("collisionFilters", a.collisionFilters, [&](const fg::CollisionFilter& x) { strs("systems", x.collisionSystems); strs("not", x.notCollideWithSystems); strs("with", x.collideWithSystems); });
#endif
		w.endobj();
		return w.s;
	}
};
inline std::string dumpAsset(const fg::Asset& a) { Dumper d; return d.dump(a); }
