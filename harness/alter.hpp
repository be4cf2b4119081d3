// Alterations of a loaded asset, each applied at one place and taken back again: ok ones leave a valid asset valid, the others break one constraint.
#pragma once
#include <fastgltf/core.hpp>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>
namespace fg = fastgltf;
struct Alteration { std::string name; bool ok; std::function<std::function<void()>()> apply; };

// T a member, v what it becomes
template <typename T, typename V> Alteration setting(std::string name, bool ok, T& field, V v) {
	auto val = std::make_shared<V>(std::move(v));
	return { std::move(name), ok, [&field, val]() -> std::function<void()> { auto old = std::make_shared<T>(std::move(field)); field = *val; return [&field, old] { field = std::move(*old); }; } };
}
template <typename T> Alteration dropping(std::string name, bool ok, T& field) {
	return { std::move(name), ok, [&field]() -> std::function<void()> { auto old = std::make_shared<T>(std::move(field)); field = T(); return [&field, old] { field = std::move(*old); }; } };
}

inline std::vector<Alteration> collectAlterations(fg::Asset& a) {
	using namespace fastgltf;
	std::vector<Alteration> v;
	auto used = [&](std::string_view e) { for (auto& x : a.extensionsUsed) if (std::string_view(x) == e) return true; return false; };
	auto without = [&](std::string name, std::string ext) { v.push_back({ std::move(name), false, [&a, ext]() -> std::function<void()> { auto old = a.extensionsUsed; decltype(old) n; for (auto& x : old) if (std::string_view(x) != ext) n.push_back(x); a.extensionsUsed = n; return [&a, old] { a.extensionsUsed = old; }; } }); };
	bool quant = used("KHR_mesh_quantization"), godot = used("GODOT_single_root");
	a.accessors.reserve(a.accessors.size() + 2);
	// the extension lists
	auto list = [&](std::string name, bool ok, bool inUsed, std::string e) { v.push_back({ std::move(name), ok, [&a, inUsed, e]() -> std::function<void()> { a.extensionsRequired.emplace_back(e.c_str()); if (inUsed) a.extensionsUsed.emplace_back(e.c_str()); return [&a, inUsed] { a.extensionsRequired.pop_back(); if (inUsed) a.extensionsUsed.pop_back(); }; } }); };
	list("required-unused", false, false, "VENDOR_none"); list("required-used", true, true, "VENDOR_none"); if (!a.extensionsUsed.empty()) list("required-prefix", false, false, std::string(std::string_view(a.extensionsUsed[0])).substr(1));
	v.push_back(setting("version-text", true, a.defaultScene, a.defaultScene));
	// accessors
	std::vector<char> position(a.accessors.size(), 0), strict(a.accessors.size(), 0);
	for (auto& m : a.meshes) for (auto& p : m.primitives) for (auto& at : p.attributes) if (at.name == "POSITION" && at.accessorIndex < position.size()) position[at.accessorIndex] = 1;
	for (auto& an : a.animations) for (auto& s : an.samplers) { if (s.inputAccessor < strict.size()) strict[s.inputAccessor] = 1; }
	for (std::size_t i = 0; i < a.accessors.size(); ++i) {
		auto& x = a.accessors[i]; auto sz = getComponentByteSize(x.componentType); auto comps = getNumComponents(x.type);
		v.push_back(setting("accessor-type", false, x.type, AccessorType::Invalid)); v.push_back(setting("accessor-component", false, x.componentType, ComponentType::Invalid)); v.push_back(setting("accessor-count", false, x.count, std::size_t(0)));
		v.push_back({ "accessor-name", true, [&x]() -> std::function<void()> { auto old = x.name; x.name = "other"; return [&x, old] { x.name = old; }; } });
		if (sz > 1) { v.push_back(setting("accessor-offset", false, x.byteOffset, x.byteOffset + 1 + (i % (sz - 1)))); if (x.bufferViewIndex && x.byteOffset) { auto& bv = a.bufferViews[*x.bufferViewIndex]; v.push_back(setting("view-offset", false, bv.byteOffset, bv.byteOffset + 1 + (i % (sz - 1)))); } }
		if (sz == 8 && x.bufferViewIndex && x.byteOffset) { auto& bv = a.bufferViews[*x.bufferViewIndex]; v.push_back(setting("stride-component", false, bv.byteStride, Optional<std::size_t>(std::size_t(12)))); }
		v.push_back(setting("accessor-offset-ok", true, x.byteOffset, x.byteOffset + sz));
		auto bounds = [&](const char* n, auto& field) {
			auto with = [&](std::string nm, bool ok, std::size_t len, AccessorBoundsArray::BoundsType t) { v.push_back({ std::move(nm), ok, [&field, len, t]() -> std::function<void()> { using O = std::remove_reference_t<decltype(field)>; auto old = std::make_shared<O>(std::move(field)); field.emplace(len, t); return [&field, old] { field = std::move(*old); }; } }); };
			auto D = AccessorBoundsArray::BoundsType::float64, I = AccessorBoundsArray::BoundsType::int64; bool fp = x.componentType == ComponentType::Float || x.componentType == ComponentType::Double;
			with(std::string("bounds-long-") + n, false, comps + 1, fp ? D : I); if (comps > 1) with(std::string("bounds-short-") + n, false, comps - 1, fp ? D : I); with(std::string("bounds-empty-") + n, false, 0, fp ? D : I); with(std::string("bounds-ok-") + n, true, comps, fp ? D : I);
			if (fp) with(std::string("bounds-integer-") + n, false, comps, I);
			if (field.has_value()) { if (position[i]) v.push_back(dropping(std::string("bounds-gone-") + n, false, field)); else if (!strict[i]) v.push_back(dropping(std::string("bounds-gone-ok-") + n, true, field)); }
		};
		bounds("min", x.min); bounds("max", x.max);
		if (x.sparse) for (int k = 0; k < 2; ++k) {
			auto bi = k ? x.sparse->valuesBufferView : x.sparse->indicesBufferView; if (bi >= a.bufferViews.size()) continue; auto& bv = a.bufferViews[bi]; std::string n = k ? "sparse-values-" : "sparse-indices-";
			v.push_back(setting(n + "stride", false, bv.byteStride, Optional<std::size_t>(std::size_t(8)))); v.push_back(setting(n + "target", false, bv.target, Optional<BufferTarget>(BufferTarget::ArrayBuffer)));
		}
	}
	// animations
	for (auto& an : a.animations) {
		v.push_back(dropping("animation-channels", false, an.channels));
		v.push_back(dropping("animation-samplers", false, an.samplers));
		for (auto& c : an.channels) { if (!c.nodeIndex) continue;
			v.push_back({ "animation-twice", false, [&an, &c]() -> std::function<void()> { auto copy = c; decltype(an.channels) n = an.channels; n.emplace_back(copy); auto* keep = &an; auto old = std::make_shared<decltype(an.channels)>(std::move(an.channels)); keep->channels = n; return [keep, old] { keep->channels = std::move(*old); }; } });
			v.push_back({ "animation-no-node", true, [&an, &c]() -> std::function<void()> { auto old = c.nodeIndex; c.nodeIndex.reset(); return [&c, old] { c.nodeIndex = old; }; } });
		}
		for (auto& c : an.channels) { // only what a channel uses is looked at
			if (c.samplerIndex >= an.samplers.size()) continue; auto& s = an.samplers[c.samplerIndex]; auto& in = a.accessors[s.inputAccessor]; auto& out = a.accessors[s.outputAccessor];
			auto fresh = [&](std::string n, bool ok, bool input, AccessorType t, ComponentType ct, std::size_t count) { v.push_back({ std::move(n), ok, [&a, &s, input, t, ct, count]() -> std::function<void()> { Accessor x; x.byteOffset = 0; x.count = count; x.type = t; x.componentType = ct; x.normalized = false; a.accessors.emplace_back(std::move(x)); auto& f = input ? s.inputAccessor : s.outputAccessor; auto old = f; f = a.accessors.size() - 1; return [&a, &f, old] { f = old; a.accessors.pop_back(); }; } }); };
			fresh("animation-input-type", false, true, AccessorType::Vec2, ComponentType::Float, in.count); fresh("animation-input-matrix", false, true, AccessorType::Mat4, ComponentType::Float, in.count);
			for (auto ct : { ComponentType::Byte, ComponentType::UnsignedByte, ComponentType::Short, ComponentType::UnsignedShort, ComponentType::UnsignedInt, ComponentType::Int }) fresh("animation-input-component", false, true, AccessorType::Scalar, ct, in.count);
			bool mo = (in.bufferViewIndex && a.bufferViews[*in.bufferViewIndex].meshoptCompression); if (mo || c.path == AnimationPath::Weights) continue;
			auto need = s.interpolation == AnimationInterpolation::CubicSpline ? in.count * 3 : in.count;
			fresh("animation-output", true, false, out.type, out.componentType, need); fresh("animation-output-more", false, false, out.type, out.componentType, need + 1); if (need > 1) fresh("animation-output-less", false, false, out.type, out.componentType, need - 1); fresh("animation-output-times", false, false, out.type, out.componentType, s.interpolation == AnimationInterpolation::CubicSpline ? in.count : in.count * 3);
		}
	}
	// buffers, views
	for (auto& x : a.buffers) v.push_back(setting("buffer-length", false, x.byteLength, std::size_t(0)));
	std::vector<char> strided(a.bufferViews.size(), 1);
	for (auto& x : a.accessors) { if (x.sparse) { strided[x.sparse->indicesBufferView] = 0; strided[x.sparse->valuesBufferView] = 0; } if (x.bufferViewIndex && getComponentByteSize(x.componentType) == 8) strided[*x.bufferViewIndex] = 0; }
	for (auto& m : a.meshes) for (auto& p : m.primitives) if (p.indicesAccessor && *p.indicesAccessor < a.accessors.size()) { auto& x = a.accessors[*p.indicesAccessor]; if (x.bufferViewIndex) strided[*x.bufferViewIndex] = 0; }
	bool mused = used("EXT_meshopt_compression") || used("KHR_meshopt_compression");
	for (std::size_t i = 0; i < a.bufferViews.size(); ++i) {
		auto& x = a.bufferViews[i]; v.push_back(setting("view-length", false, x.byteLength, std::size_t(0)));
		for (std::size_t s : { 0, 1, 2, 3, 5, 6, 7, 9, 10, 251, 253, 254, 255, 256, 260, 1 << 20 }) v.push_back(setting("view-stride", false, x.byteStride, Optional<std::size_t>(s)));
		if (strided[i]) for (std::size_t s : { 4, 8, 12, 128, 248, 252 }) v.push_back(setting("view-stride-ok", true, x.byteStride, Optional<std::size_t>(s)));
		if (auto* c = x.meshoptCompression.get()) {
			without("unlisted-meshopt", "EXT_meshopt_compression");
			if (c->mode == MeshoptCompressionMode::Attributes) { for (std::size_t s : { 1, 2, 3, 5, 6, 257, 258, 260, 1024 }) v.push_back(setting("meshopt-stride-attributes", false, c->byteStride, s)); for (std::size_t s : { 4, 12, 252, 256 }) v.push_back(setting("meshopt-stride-ok", true, c->byteStride, s)); }
			else { for (std::size_t s : { 0, 1, 3, 5, 6, 8, 16, 256 }) v.push_back(setting("meshopt-stride-indices", false, c->byteStride, s)); for (std::size_t s : { 2, 4 }) v.push_back(setting("meshopt-stride-ok", true, c->byteStride, s)); }
			if (c->mode == MeshoptCompressionMode::Triangles) { v.push_back(setting("meshopt-triangles", false, c->count, c->count + 1)); v.push_back(setting("meshopt-triangles", false, c->count, c->count + 2)); v.push_back(setting("meshopt-count-ok", true, c->count, c->count + 3)); }
			else v.push_back(setting("meshopt-count-ok", true, c->count, c->count + 1));
		}
	}
	(void)mused;
	for (auto& x : a.cameras) {
		if (auto* o = std::get_if<Camera::Orthographic>(&x.camera)) { v.push_back(setting("orthographic-zfar", false, o->zfar, num(0))); v.push_back(setting("orthographic-zfar", false, o->zfar, num(-0.0))); v.push_back(setting("camera-ok", true, o->znear, num(0))); v.push_back(setting("camera-ok", true, o->zfar, num(1e-6))); }
		if (auto* o = std::get_if<Camera::Perspective>(&x.camera)) { v.push_back(setting("perspective-yfov", false, o->yfov, num(0))); v.push_back(setting("perspective-znear", false, o->znear, num(0))); v.push_back(setting("perspective-zfar", false, o->zfar, Optional<num>(num(0)))); v.push_back(setting("perspective-aspect", false, o->aspectRatio, Optional<num>(num(0)))); v.push_back(setting("camera-ok", true, o->aspectRatio, Optional<num>())); v.push_back(setting("camera-ok", true, o->zfar, Optional<num>())); v.push_back(setting("camera-ok", true, o->aspectRatio, Optional<num>(num(.01)))); v.push_back(setting("camera-ok", true, o->zfar, Optional<num>(num(1e6)))); }
	}
	auto O = [](double d) { return Optional<num>(static_cast<num>(d)); };
	for (auto& x : a.lights) {
		v.push_back(setting("light-range", false, x.range, O(0))); v.push_back(setting("light-range", false, x.range, O(-1e-3))); v.push_back(setting("light-range", false, x.range, O(-5))); v.push_back(setting("light-ok", true, x.range, Optional<num>())); v.push_back(setting("light-ok", true, x.intensity, num(0)));
		if (x.type == LightType::Directional) v.push_back(setting("light-directional-range", false, x.range, O(3))); else v.push_back(setting("light-ok", true, x.range, O(1e-3)));
		if (x.type != LightType::Spot) { v.push_back(setting("light-cone-unspotted", false, x.innerConeAngle, O(.1))); v.push_back(setting("light-cone-unspotted", false, x.outerConeAngle, O(.4))); }
		else {
			v.push_back(setting("light-cone-missing", false, x.innerConeAngle, Optional<num>())); v.push_back(setting("light-cone-missing", false, x.outerConeAngle, Optional<num>())); v.push_back(setting("light-cone", false, x.innerConeAngle, O(-1e-4))); v.push_back(setting("light-cone", false, x.outerConeAngle, O(1.5709)));
			if (x.outerConeAngle) v.push_back(setting("light-cone", false, x.innerConeAngle, O(*x.outerConeAngle + 1e-3))); if (x.innerConeAngle && *x.innerConeAngle > num(1e-3)) v.push_back(setting("light-cone", false, x.outerConeAngle, O(*x.innerConeAngle - 1e-3)));
			v.push_back(setting("light-cone-ok", true, x.innerConeAngle, O(0))); v.push_back(setting("light-cone-ok", true, x.outerConeAngle, O(1.57079)));
		}
	}
	for (auto& m : a.materials) {
		auto ext = [&](bool has, const char* e) { if (has) without(std::string("unlisted-") + e, e); };
		ext(!!m.anisotropy, "KHR_materials_anisotropy"); ext(!!m.clearcoat, "KHR_materials_clearcoat"); ext(!!m.iridescence, "KHR_materials_iridescence"); ext(!!m.sheen, "KHR_materials_sheen"); ext(!!m.specular, "KHR_materials_specular"); ext(!!m.specularGlossiness, "KHR_materials_pbrSpecularGlossiness"); ext(!!m.transmission, "KHR_materials_transmission"); ext(!!m.volume, "KHR_materials_volume");
		ext(m.emissiveStrength != num(1), "KHR_materials_emissive_strength"); ext(m.ior != num(1.5), "KHR_materials_ior"); ext(m.packedNormalMetallicRoughnessTexture.has_value(), "MSFT_packing_normalRoughnessMetallic"); ext(!!m.packedOcclusionRoughnessMetallicTextures, "MSFT_packing_occlusionRoughnessMetallic"); ext(!!m.diffuseTransmission, "KHR_materials_diffuse_transmission");
		auto num_ = [&](const char* n, auto& f, num x, const char* e) { v.push_back(setting(n, used(e), f, x)); }; num_("emissive-strength", m.emissiveStrength, num(2), "KHR_materials_emissive_strength"); num_("ior", m.ior, num(1.25), "KHR_materials_ior"); v.push_back(setting("material-ok", true, m.emissiveStrength, num(1))); v.push_back(setting("material-ok", true, m.ior, num(1.5))); v.push_back(setting("material-ok", true, m.doubleSided, !m.doubleSided));
		auto tex = [&](auto& t) { if (t.has_value()) v.push_back(dropping("material-texture-gone", true, t)); }; tex(m.normalTexture); tex(m.emissiveTexture); tex(m.occlusionTexture); tex(m.pbrData.baseColorTexture); tex(m.pbrData.metallicRoughnessTexture);
		auto fresh = [&](auto& p, const char* e) { using T = typename std::remove_reference_t<decltype(p)>::element_type; if (!p) v.push_back({ std::string("material-added-") + e, used(e), [&p]() -> std::function<void()> { p = std::make_unique<T>(); return [&p] { p.reset(); }; } }); };
		fresh(m.anisotropy, "KHR_materials_anisotropy"); fresh(m.clearcoat, "KHR_materials_clearcoat"); fresh(m.iridescence, "KHR_materials_iridescence"); fresh(m.sheen, "KHR_materials_sheen"); fresh(m.specular, "KHR_materials_specular"); fresh(m.specularGlossiness, "KHR_materials_pbrSpecularGlossiness"); fresh(m.transmission, "KHR_materials_transmission"); fresh(m.volume, "KHR_materials_volume"); fresh(m.diffuseTransmission, "KHR_materials_diffuse_transmission"); fresh(m.packedOcclusionRoughnessMetallicTextures, "MSFT_packing_occlusionRoughnessMetallic");
	}
	// meshes
	for (auto& m : a.meshes) for (auto& p : m.primitives) {
		v.push_back(dropping("material-gone", true, p.materialIndex)); v.push_back(dropping("indices-gone", true, p.indicesAccessor));
		if (!p.mappings.empty()) {
			without("unlisted-variants", "KHR_materials_variants");
			v.push_back({ "mappings-long", false, [&p]() -> std::function<void()> { auto* q = &p; auto n = p.mappings; n.emplace_back(); auto old = std::make_shared<decltype(n)>(std::move(p.mappings)); q->mappings = n; return [q, old] { q->mappings = std::move(*old); }; } });
			if (p.mappings.size() > 1) v.push_back({ "mappings-short", false, [&p]() -> std::function<void()> { auto* q = &p; auto n = p.mappings; n.pop_back(); auto old = std::make_shared<decltype(n)>(std::move(p.mappings)); q->mappings = n; return [q, old] { q->mappings = std::move(*old); }; } });
			for (auto& x : p.mappings) v.push_back(setting("mapping-none", true, x, std::remove_reference_t<decltype(x)>()));
		}
		if (p.indicesAccessor) { auto& x = a.accessors[*p.indicesAccessor]; if (x.bufferViewIndex) v.push_back(setting("indices-stride", false, a.bufferViews[*x.bufferViewIndex].byteStride, Optional<std::size_t>(std::size_t(8)))); }
		for (auto& at : p.attributes) {
			std::string n(std::string_view(at.name)); bool own = n[0] == '_'; auto starts = [&](const char* s) { return n.rfind(s, 0) == 0; };
			v.push_back({ "attribute-name", false, [&at]() -> std::function<void()> { auto old = at.name; at.name = "X"; return [&at, old] { at.name = old; }; } });
			auto allowed = [&](AccessorType t, ComponentType c) {
				auto vec = [&](std::initializer_list<AccessorType> l) { for (auto q : l) if (q == t) return true; return false; }; auto in = [&](std::initializer_list<ComponentType> l) { for (auto q : l) if (q == c) return true; return false; };
				using C = ComponentType; using A = AccessorType;
				if (n == "POSITION") return vec({ A::Vec3 }) && (quant ? in({ C::Float, C::Byte, C::UnsignedByte, C::Short, C::UnsignedShort }) : in({ C::Float }));
				if (n == "NORMAL" || n == "TANGENT") return vec({ n == "NORMAL" ? A::Vec3 : A::Vec4 }) && (quant ? in({ C::Float, C::Byte, C::Short }) : in({ C::Float }));
				if (starts("TEXCOORD_")) return vec({ A::Vec2 }) && (quant ? in({ C::Float, C::Byte, C::UnsignedByte, C::Short, C::UnsignedShort }) : in({ C::Float, C::UnsignedByte, C::UnsignedShort }));
				if (starts("COLOR_")) return vec({ A::Vec3, A::Vec4 }) && in({ C::Float, C::UnsignedByte, C::UnsignedShort });
				if (starts("JOINTS_")) return vec({ A::Vec4 }) && in({ C::UnsignedByte, C::UnsignedShort });
				if (starts("WEIGHTS_")) return vec({ A::Vec4 }) && in({ C::Float, C::UnsignedByte, C::UnsignedShort });
				return c != C::UnsignedInt; };
			if (!own && n != "POSITION" && n != "NORMAL" && n != "TANGENT" && !starts("TEXCOORD_") && !starts("COLOR_") && !starts("JOINTS_") && !starts("WEIGHTS_")) continue;
			for (auto t : { AccessorType::Scalar, AccessorType::Vec2, AccessorType::Vec3, AccessorType::Vec4, AccessorType::Mat2, AccessorType::Mat3, AccessorType::Mat4 }) for (auto c : { ComponentType::Byte, ComponentType::UnsignedByte, ComponentType::Short, ComponentType::UnsignedShort, ComponentType::UnsignedInt, ComponentType::Float }) {
				auto with = [&](std::string nm, bool ok, bool mn, bool mx) { v.push_back({ std::move(nm), ok, [&a, &at, t, c, mn, mx]() -> std::function<void()> { Accessor x; x.byteOffset = 0; x.count = 3; x.type = t; x.componentType = c; x.normalized = false; auto bt = c == ComponentType::Float ? AccessorBoundsArray::BoundsType::float64 : AccessorBoundsArray::BoundsType::int64; if (mn) x.min.emplace(getNumComponents(t), bt); if (mx) x.max.emplace(getNumComponents(t), bt);
					a.accessors.emplace_back(std::move(x)); auto old = at.accessorIndex; at.accessorIndex = a.accessors.size() - 1; return [&a, &at, old] { at.accessorIndex = old; a.accessors.pop_back(); }; } }); };
				auto base = n.substr(0, n.find('_', 1)); bool ok = allowed(t, c); with("attribute-" + (own ? "_" : base) + (ok ? "-ok" : ""), ok, true, true);
				if (ok && n == "POSITION") { with("position-no-min", false, false, true); with("position-no-max", false, true, false); }
			}
		}
	}
	// nodes
	for (std::size_t i = 0; i < a.nodes.size(); ++i) {
		auto& x = a.nodes[i];
		if (auto* t = std::get_if<TRS>(&x.transform)) for (int k = 0; k < 4; ++k) for (float f : { 1.0f, -1.0f, 1.0001f, -1.0001f, 5.f, -1e30f }) { if (std::fabs(f) <= 1 && godot) continue; v.push_back({ std::fabs(f) <= 1 ? "rotation-ok" : "rotation", std::fabs(f) <= 1, [t, k, f]() -> std::function<void()> { auto old = t->rotation; t->rotation[k] = f; return [t, old] { t->rotation = old; }; } }); }
		v.push_back(dropping("camera-gone", true, x.cameraIndex)); if (x.skinIndex) v.push_back(dropping("skin-gone", true, x.skinIndex));
		if (x.meshIndex && (x.skinIndex || !x.weights.empty())) v.push_back(dropping("node-mesh-gone", false, x.meshIndex));
		if (!x.meshIndex && !a.skins.empty()) v.push_back(setting("node-skin-no-mesh", false, x.skinIndex, Optional<std::size_t>(a.skins.size() - 1)));
		if (!x.meshIndex) v.push_back({ "node-weights-no-mesh", false, [&x]() -> std::function<void()> { auto* q = &x; q->weights.emplace_back(num(.5)); return [q] { q->weights.resize(q->weights.size() - 1); }; } });
		if (x.skinIndex && x.meshIndex) for (auto& p : a.meshes[*x.meshIndex].primitives) for (std::string n : { "JOINTS_0", "WEIGHTS_0" }) {
			v.push_back({ "skinned-without-" + n, false, [&p, n]() -> std::function<void()> { std::vector<std::size_t> at; for (std::size_t k = 0; k < p.attributes.size(); ++k) if (std::string_view(p.attributes[k].name) == n) { at.push_back(k); p.attributes[k].name = "_GONE"; } return [&p, at, n] { for (auto k : at) p.attributes[k].name = n.c_str(); }; } });
			v.push_back({ "skinned-misnamed-" + n, false, [&p, n]() -> std::function<void()> { std::vector<std::size_t> at; for (std::size_t k = 0; k < p.attributes.size(); ++k) if (std::string_view(p.attributes[k].name) == n) { at.push_back(k); p.attributes[k].name = (n.substr(0, n.size() - 1) + "1").c_str(); } return [&p, at, n] { for (auto k : at) p.attributes[k].name = n.c_str(); }; } }); }
		auto flag = [&](const char* n, bool& f, const char* e) { v.push_back(setting(std::string(n), used(e), f, false)); v.push_back(setting("node-flag-ok", true, f, true)); if (!f) without(std::string("unlisted-") + n, e); };
		flag("node-visible", x.visible, "KHR_node_visibility"); flag("node-selectable", x.selectable, "KHR_node_selectability"); flag("node-hoverable", x.hoverable, "KHR_node_hoverability");
	}
	for (auto& x : a.samplers) { for (auto f : { Filter::NearestMipMapNearest, Filter::LinearMipMapNearest, Filter::NearestMipMapLinear, Filter::LinearMipMapLinear }) { v.push_back(setting("sampler-mag", false, x.magFilter, Optional<Filter>(f))); v.push_back(setting("sampler-ok", true, x.minFilter, Optional<Filter>(f))); } for (auto f : { Filter::Nearest, Filter::Linear }) { v.push_back(setting("sampler-ok", true, x.magFilter, Optional<Filter>(f))); v.push_back(setting("sampler-ok", true, x.minFilter, Optional<Filter>(f))); } v.push_back(setting("sampler-ok", true, x.wrapS, Wrap::ClampToEdge)); }
	for (auto& x : a.skins) { v.push_back(dropping("skin-joints", false, x.joints)); v.push_back(dropping("skin-ok", true, x.skeleton)); v.push_back(dropping("skin-ok", true, x.inverseBindMatrices)); }
	bool texext = used("KHR_texture_basisu") || used("MSFT_texture_dds") || used("EXT_texture_webp");
	for (auto& x : a.textures) {
		v.push_back(dropping("texture-sampler-gone", true, x.samplerIndex));
		v.push_back({ "texture-sourceless", false, [&x]() -> std::function<void()> { Texture* t = &x; auto i = t->imageIndex, b = t->basisuImageIndex, d = t->ddsImageIndex, w = t->webpImageIndex; t->imageIndex.reset(); t->basisuImageIndex.reset(); t->ddsImageIndex.reset(); t->webpImageIndex.reset(); return [t, i, b, d, w] { t->imageIndex = i; t->basisuImageIndex = b; t->ddsImageIndex = d; t->webpImageIndex = w; }; } });
		bool other = x.basisuImageIndex || x.ddsImageIndex || x.webpImageIndex; if (x.imageIndex && other) v.push_back(dropping("texture-fallback-gone", texext, x.imageIndex));
		if (x.imageIndex) { v.push_back(dropping("texture-ok", true, x.basisuImageIndex)); v.push_back(dropping("texture-ok", true, x.ddsImageIndex)); v.push_back(dropping("texture-ok", true, x.webpImageIndex)); }
	}
	for (auto& x : a.scenes) if (!godot) v.push_back(dropping("scene-empty", true, x.nodeIndices));
	if (!godot) v.push_back(dropping("scene-default", true, a.defaultScene));
	return v;
}
