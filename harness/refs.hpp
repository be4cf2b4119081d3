// Enumerates references (indices) and checked numbers of an asset so that they can be corrupted one at a time.
#pragma once
#include <fastgltf/core.hpp>
#include <functional>
#include <string>
#include <vector>
namespace fg = fastgltf;
struct Ref { std::string path; std::string kind; std::uint64_t limit; std::function<std::uint64_t()> get; std::function<void(std::uint64_t)> set; };
struct SRef { std::string path; std::function<void(const std::string&)> set; };

inline std::vector<Ref> collectRefs(fg::Asset& a) {
	std::vector<Ref> v;
	auto S = [](std::size_t i) { return std::to_string(i); };
	auto idx = [&](std::string p, std::size_t& r, std::size_t limit, const char* kind = "ref") { v.push_back({ std::move(p), kind, limit, [&r] { return (std::uint64_t)r; }, [&r](std::uint64_t x) { r = x; } }); };
	auto opt = [&](std::string p, auto& r, std::size_t limit, const char* kind = "ref") { if (r.has_value()) v.push_back({ std::move(p), kind, limit, [&r] { return (std::uint64_t)*r; }, [&r](std::uint64_t x) { *r = x; } }); };
	auto tex = [&](std::string p, auto& t) { if (t.has_value()) idx(std::move(p), t->textureIndex, a.textures.size()); };
	opt("scene", a.defaultScene, a.scenes.size());
	for (std::size_t i = 0; i < a.accessors.size(); ++i) {
		auto& x = a.accessors[i]; auto p = "accessors/" + S(i);
		opt(p + "/bufferView", x.bufferViewIndex, a.bufferViews.size());
		idx(p + "/byteOffset", x.byteOffset, 0, "num"); idx(p + "/count", x.count, 0, "num");
		if (x.sparse.has_value()) { idx(p + "/sparse/iv", x.sparse->indicesBufferView, a.bufferViews.size()); idx(p + "/sparse/vv", x.sparse->valuesBufferView, a.bufferViews.size()); idx(p + "/sparse/count", x.sparse->count, 0, "num"); idx(p + "/sparse/io", x.sparse->indicesByteOffset, 0, "num"); idx(p + "/sparse/vo", x.sparse->valuesByteOffset, 0, "num");
			v.push_back({ p + "/sparse/ct", "enum", 0, [&x] { return (std::uint64_t)x.sparse->indexComponentType; }, [&x](std::uint64_t n) { x.sparse->indexComponentType = static_cast<fg::ComponentType>(n); } }); }
		v.push_back({ p + "/type", "enum", 0, [&x] { return (std::uint64_t)x.type; }, [&x](std::uint64_t n) { x.type = static_cast<fg::AccessorType>(n); } });
		v.push_back({ p + "/componentType", "enum", 0, [&x] { return (std::uint64_t)x.componentType; }, [&x](std::uint64_t n) { x.componentType = static_cast<fg::ComponentType>(n); } });
		v.push_back({ p + "/normalized", "enum", 0, [&x] { return (std::uint64_t)x.normalized; }, [&x](std::uint64_t n) { x.normalized = n != 0; } });
	}
	for (std::size_t i = 0; i < a.animations.size(); ++i) {
		auto& x = a.animations[i]; auto p = "animations/" + S(i);
		for (std::size_t j = 0; j < x.channels.size(); ++j) { idx(p + "/channels/" + S(j) + "/sampler", x.channels[j].samplerIndex, x.samplers.size()); opt(p + "/channels/" + S(j) + "/node", x.channels[j].nodeIndex, a.nodes.size()); }
		for (std::size_t j = 0; j < x.samplers.size(); ++j) { idx(p + "/samplers/" + S(j) + "/input", x.samplers[j].inputAccessor, a.accessors.size()); idx(p + "/samplers/" + S(j) + "/output", x.samplers[j].outputAccessor, a.accessors.size()); }
	}
	for (std::size_t i = 0; i < a.buffers.size(); ++i) idx("buffers/" + S(i) + "/byteLength", a.buffers[i].byteLength, 0, "num");
	for (std::size_t i = 0; i < a.bufferViews.size(); ++i) {
		auto& x = a.bufferViews[i]; auto p = "bufferViews/" + S(i);
		idx(p + "/buffer", x.bufferIndex, a.buffers.size()); idx(p + "/byteOffset", x.byteOffset, 0, "num"); idx(p + "/byteLength", x.byteLength, 0, "num"); opt(p + "/byteStride", x.byteStride, 0, "num");
		if (x.meshoptCompression) { idx(p + "/meshopt/buffer", x.meshoptCompression->bufferIndex, a.buffers.size()); }
	}
	for (std::size_t i = 0; i < a.images.size(); ++i) if (auto* b = std::get_if<fg::sources::BufferView>(&a.images[i].data)) idx("images/" + S(i) + "/bufferView", b->bufferViewIndex, a.bufferViews.size());
	for (std::size_t i = 0; i < a.materials.size(); ++i) {
		auto& m = a.materials[i]; auto p = "materials/" + S(i) + "/";
		tex(p + "baseColorTexture", m.pbrData.baseColorTexture); tex(p + "metallicRoughnessTexture", m.pbrData.metallicRoughnessTexture); tex(p + "normalTexture", m.normalTexture); tex(p + "occlusionTexture", m.occlusionTexture); tex(p + "emissiveTexture", m.emissiveTexture);
		if (m.anisotropy) tex(p + "anisotropy/texture", m.anisotropy->anisotropyTexture);
		if (m.clearcoat) { tex(p + "clearcoat/texture", m.clearcoat->clearcoatTexture); tex(p + "clearcoat/roughnessTexture", m.clearcoat->clearcoatRoughnessTexture); tex(p + "clearcoat/normalTexture", m.clearcoat->clearcoatNormalTexture); }
		if (m.diffuseTransmission) { tex(p + "diffuseTransmission/texture", m.diffuseTransmission->diffuseTransmissionTexture); tex(p + "diffuseTransmission/colorTexture", m.diffuseTransmission->diffuseTransmissionColorTexture); }
		if (m.iridescence) { tex(p + "iridescence/texture", m.iridescence->iridescenceTexture); tex(p + "iridescence/thicknessTexture", m.iridescence->iridescenceThicknessTexture); }
		if (m.sheen) { tex(p + "sheen/colorTexture", m.sheen->sheenColorTexture); tex(p + "sheen/roughnessTexture", m.sheen->sheenRoughnessTexture); }
		if (m.specular) { tex(p + "specular/texture", m.specular->specularTexture); tex(p + "specular/colorTexture", m.specular->specularColorTexture); }
		if (m.specularGlossiness) { tex(p + "specularGlossiness/diffuseTexture", m.specularGlossiness->diffuseTexture); tex(p + "specularGlossiness/texture", m.specularGlossiness->specularGlossinessTexture); }
		if (m.transmission) tex(p + "transmission/texture", m.transmission->transmissionTexture);
		if (m.volume) tex(p + "volume/texture", m.volume->thicknessTexture);
		tex(p + "packedNRM", m.packedNormalMetallicRoughnessTexture);
		if (auto& q = m.packedOcclusionRoughnessMetallicTextures) { tex(p + "packedORM/orm", q->occlusionRoughnessMetallicTexture); tex(p + "packedORM/rmo", q->roughnessMetallicOcclusionTexture); tex(p + "packedORM/normal", q->normalTexture); }
	}
	for (std::size_t i = 0; i < a.meshes.size(); ++i) for (std::size_t j = 0; j < a.meshes[i].primitives.size(); ++j) {
		auto& x = a.meshes[i].primitives[j]; auto p = "meshes/" + S(i) + "/primitives/" + S(j) + "/";
		for (std::size_t k = 0; k < x.attributes.size(); ++k) idx(p + "attributes/" + S(k), x.attributes[k].accessorIndex, a.accessors.size());
		for (std::size_t t = 0; t < x.targets.size(); ++t) for (std::size_t k = 0; k < x.targets[t].size(); ++k) idx(p + "targets/" + S(t) + "/" + S(k), x.targets[t][k].accessorIndex, a.accessors.size());
		opt(p + "indices", x.indicesAccessor, a.accessors.size()); opt(p + "material", x.materialIndex, a.materials.size());
		for (std::size_t k = 0; k < x.mappings.size(); ++k) opt(p + "mappings/" + S(k), x.mappings[k], a.materials.size());
		if (x.dracoCompression) idx(p + "draco/view", x.dracoCompression->bufferView, a.bufferViews.size());
		v.push_back({ p + "mode", "enum", 0, [&x] { return (std::uint64_t)x.type; }, [&x](std::uint64_t n) { x.type = static_cast<fg::PrimitiveType>(n); } });
	}
	for (std::size_t i = 0; i < a.nodes.size(); ++i) {
		auto& x = a.nodes[i]; auto p = "nodes/" + S(i) + "/";
		opt(p + "mesh", x.meshIndex, a.meshes.size()); opt(p + "skin", x.skinIndex, a.skins.size()); opt(p + "camera", x.cameraIndex, a.cameras.size()); opt(p + "light", x.lightIndex, a.lights.size());
		for (std::size_t k = 0; k < x.children.size(); ++k) idx(p + "children/" + S(k), x.children[k], a.nodes.size());
		for (std::size_t k = 0; k < x.instancingAttributes.size(); ++k) idx(p + "instancing/" + S(k), x.instancingAttributes[k].accessorIndex, a.accessors.size());
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		if (x.physicsRigidBody) {
			auto& b = *x.physicsRigidBody; auto geo = [&](std::string q, fg::Geometry& g) { opt(q + "/shape", g.shape, a.shapes.size()); opt(q + "/node", g.node, a.nodes.size()); };
			if (b.collider.has_value()) { geo(p + "collider", b.collider->geometry); opt(p + "collider/material", b.collider->physicsMaterial, a.physicsMaterials.size()); opt(p + "collider/filter", b.collider->collisionFilter, a.collisionFilters.size()); }
			if (b.trigger.has_value()) {
				if (auto* g = std::get_if<fg::GeometryTrigger>(&*b.trigger)) { geo(p + "trigger", g->geometry); opt(p + "trigger/filter", g->collisionFilter, a.collisionFilters.size()); }
				else { auto& n = std::get<fg::NodeTrigger>(*b.trigger).nodes; for (std::size_t k = 0; k < n.size(); ++k) idx(p + "trigger/nodes/" + S(k), n[k], a.nodes.size()); }
			}
			if (b.joint.has_value()) { idx(p + "joint/node", b.joint->connectedNode, a.nodes.size()); idx(p + "joint/joint", b.joint->joint, a.physicsJoints.size()); }
		}
#endif
	}
	for (std::size_t i = 0; i < a.scenes.size(); ++i) for (std::size_t k = 0; k < a.scenes[i].nodeIndices.size(); ++k) idx("scenes/" + S(i) + "/nodes/" + S(k), a.scenes[i].nodeIndices[k], a.nodes.size());
	for (std::size_t i = 0; i < a.skins.size(); ++i) {
		auto& x = a.skins[i]; auto p = "skins/" + S(i) + "/";
		opt(p + "ibm", x.inverseBindMatrices, a.accessors.size()); opt(p + "skeleton", x.skeleton, a.nodes.size());
		for (std::size_t k = 0; k < x.joints.size(); ++k) idx(p + "joints/" + S(k), x.joints[k], a.nodes.size());
	}
	for (std::size_t i = 0; i < a.textures.size(); ++i) {
		auto& x = a.textures[i]; auto p = "textures/" + S(i) + "/";
		opt(p + "sampler", x.samplerIndex, a.samplers.size()); opt(p + "source", x.imageIndex, a.images.size()); opt(p + "basisu", x.basisuImageIndex, a.images.size()); opt(p + "dds", x.ddsImageIndex, a.images.size()); opt(p + "webp", x.webpImageIndex, a.images.size());
	}
	return v;
}
inline std::vector<SRef> collectStrings(fg::Asset& a) {
	std::vector<SRef> v;
	auto add = [&](std::string p, auto& s) { v.push_back({ std::move(p), [&s](const std::string& x) { s.assign(x.data(), x.size()); } }); };
	auto all = [&](const char* k, auto& c) { for (std::size_t i = 0; i < c.size(); ++i) add(std::string(k) + "/" + std::to_string(i) + "/name", c[i].name); };
	all("accessors", a.accessors); all("animations", a.animations); all("buffers", a.buffers); all("bufferViews", a.bufferViews); all("cameras", a.cameras); all("images", a.images); all("lights", a.lights); all("materials", a.materials); all("meshes", a.meshes); all("nodes", a.nodes); all("samplers", a.samplers); all("scenes", a.scenes); all("skins", a.skins); all("textures", a.textures);
	if (a.assetInfo.has_value()) { add("asset/copyright", a.assetInfo->copyright); add("asset/generator", a.assetInfo->generator); add("asset/version", a.assetInfo->gltfVersion); }
	for (std::size_t i = 0; i < a.materialVariants.size(); ++i) add("variants/" + std::to_string(i), a.materialVariants[i]);
	for (std::size_t i = 0; i < a.meshes.size(); ++i) for (std::size_t j = 0; j < a.meshes[i].primitives.size(); ++j) for (std::size_t k = 0; k < a.meshes[i].primitives[j].attributes.size(); ++k) add("meshes/" + std::to_string(i) + "/primitives/" + std::to_string(j) + "/attributes/" + std::to_string(k), a.meshes[i].primitives[j].attributes[k].name);
	return v;
}
