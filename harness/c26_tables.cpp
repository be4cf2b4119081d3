// C26: type/component tables, names, flags, extension listing, MIME handling, checksums.
#include "mon.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>
#include <fastgltf/util.hpp>
#include <set>
#include <string>
#include <array>
#include <memory>
using namespace fastgltf;
static Mon* M;
static void V(const std::string& k, const std::string& d = "") { M->viol(k, d); }
static std::string S(std::string_view v) { return std::string(v); }
// ---- independent tables from the glTF 2.0 specification and extension registry --------------
struct TypeRow { AccessorType t; const char* name; unsigned n, rows, cols; };
static const TypeRow TYPES[] = {{AccessorType::Scalar, "SCALAR", 1, 1, 1}, {AccessorType::Vec2, "VEC2", 2, 2, 1}, {AccessorType::Vec3, "VEC3", 3, 3, 1}, {AccessorType::Vec4, "VEC4", 4, 4, 1}, {AccessorType::Mat2, "MAT2", 4, 2, 2}, {AccessorType::Mat3, "MAT3", 9, 3, 3}, {AccessorType::Mat4, "MAT4", 16, 4, 4}};
struct CompRow { ComponentType t; unsigned gl, size; };
static const CompRow COMPS[] = {{ComponentType::Byte, 5120, 1}, {ComponentType::UnsignedByte, 5121, 1}, {ComponentType::Short, 5122, 2}, {ComponentType::UnsignedShort, 5123, 2}, {ComponentType::Int, 5124, 4}, {ComponentType::UnsignedInt, 5125, 4}, {ComponentType::Float, 5126, 4}, {ComponentType::Double, 5130, 8}};
struct ExtRow { Extensions e; const char* name; };
#define X(n) {Extensions::n, #n}
static const ExtRow EXTS[] = {X(KHR_texture_transform), X(KHR_texture_basisu), X(MSFT_texture_dds), X(KHR_mesh_quantization), X(EXT_meshopt_compression), X(KHR_lights_punctual), X(EXT_texture_webp), X(KHR_materials_specular), X(KHR_materials_ior), X(KHR_materials_iridescence), X(KHR_materials_volume), X(KHR_materials_transmission), X(KHR_materials_clearcoat), X(KHR_materials_emissive_strength), X(KHR_materials_sheen), X(KHR_materials_unlit), X(KHR_materials_anisotropy), X(EXT_mesh_gpu_instancing), X(KHR_materials_pbrSpecularGlossiness), X(MSFT_packing_normalRoughnessMetallic), X(MSFT_packing_occlusionRoughnessMetallic), X(KHR_materials_dispersion), X(KHR_materials_variants), X(KHR_accessor_float64), X(KHR_draco_mesh_compression), X(KHR_implicit_shapes), X(KHR_physics_rigid_bodies), X(GODOT_single_root), X(KHR_materials_diffuse_transmission), X(KHR_node_visibility), X(KHR_node_selectability), X(KHR_node_hoverability)};
#undef X
static const struct { MimeType m; const char* s; } MIMES[] = {{MimeType::JPEG, "image/jpeg"}, {MimeType::PNG, "image/png"}, {MimeType::KTX2, "image/ktx2"}, {MimeType::DDS, "image/vnd-ms.dds"}, {MimeType::GltfBuffer, "application/gltf-buffer"}, {MimeType::OctetStream, "application/octet-stream"}, {MimeType::WEBP, "image/webp"}};
static const char* KEYS[] = {"accessors", "animations", "asset", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scene", "scenes", "skins", "textures", "extensions", "extras", "extensionsUsed", "extensionsRequired", "KHR_materials_anisotropy", "KHR_materials_clearcoat", "KHR_materials_diffuse_transmission", "KHR_materials_dispersion", "KHR_materials_emissive_strength", "KHR_materials_ior", "KHR_materials_iridescence", "KHR_materials_pbrSpecularGlossiness", "KHR_materials_sheen", "KHR_materials_specular", "KHR_materials_transmission", "KHR_materials_unlit", "KHR_materials_volume", "KHR_materials_variants", "KHR_lights_punctual", "KHR_implicit_shapes", "KHR_physics_rigid_bodies", "KHR_texture_basisu", "KHR_texture_transform", "MSFT_texture_dds", "EXT_texture_webp", "EXT_mesh_gpu_instancing", "EXT_meshopt_compression", "MSFT_packing_normalRoughnessMetallic", "MSFT_packing_occlusionRoughnessMetallic", "KHR_draco_mesh_compression", "KHR_node_visibility", "KHR_node_selectability", "KHR_node_hoverability", "GODOT_single_root", "KHR_mesh_quantization", "KHR_accessor_float64", "ATTRIBUTES", "TRIANGLES", "INDICES", "NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL", "directional", "spot", "point", "image/jpeg", "image/png", "image/ktx2", "image/vnd-ms.dds", "image/webp", "application/gltf-buffer", "application/octet-stream"};

static std::uint32_t refCrc(const unsigned char* d, std::size_t n) { // reflected CRC-32C polynomial, zero initial value, no final inversion
	std::uint32_t c = 0; for (std::size_t i = 0; i < n; ++i) { c ^= d[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ ((c & 1) ? 0x82F63B78u : 0u); } return c;
}
static void crcCase(Rng& r, long idx) {
	std::size_t n = idx < 200 ? static_cast<std::size_t>(idx) : static_cast<std::size_t>(r.below(r.chance(1, 4) ? 2000 : 80)); std::size_t off = r.below(16);
	std::unique_ptr<unsigned char[]> b(new unsigned char[n + off]); // exact heap size: over-reads are caught
	for (std::size_t i = 0; i < n + off; ++i) b[i] = static_cast<unsigned char>(r.chance(1, 2) ? r.next() : 32 + r.below(95));
	std::uint32_t want = refCrc(b.get() + off, n); std::string_view sv(reinterpret_cast<char*>(b.get() + off), n);
	M->count("checksums", 4);
	if (crc32c(sv) != want) V("crc:portable:string", "length " + std::to_string(n));
	if (crc32c(b.get() + off, n) != want) V("crc:portable:bytes", "length " + std::to_string(n));
#if defined(FASTGLTF_IS_X86)
	if (__builtin_cpu_supports("sse4.2")) {
		if (sse_crc32c(sv) != want) V("crc:sse:string", "length " + std::to_string(n) + " offset " + std::to_string(off));
		if (sse_crc32c(b.get() + off, n) != want) V("crc:sse:bytes", "length " + std::to_string(n) + " offset " + std::to_string(off));
	}
#endif
	M->seenBytes(b.get() + off, n);
}
static void crcKeys() {
	std::map<std::uint32_t, std::string> seen;
	for (auto k : KEYS) { auto h = crc32c(std::string_view(k)); if (h != refCrc(reinterpret_cast<const unsigned char*>(k), std::strlen(k))) V("crc:key", k); auto [it, fresh] = seen.emplace(h, k); if (!fresh && it->second != k) V("crc:confused", it->second + " and " + k); M->seen(h); M->count("keys"); }
	for (std::uint32_t i = 0; i < 256; ++i) { unsigned char c = static_cast<unsigned char>(i); if (crcHashTable[i] != refCrc(&c, 1)) V("crc:table", std::to_string(i)); }
}
static void types() {
	for (auto& t : TYPES) {
		if (getNumComponents(t.t) != t.n) V("numComponents", t.name);
		if (getElementRowCount(t.t) != t.rows) V("rowCount", t.name);
		if (isMatrix(t.t) != (t.cols > 1)) V("isMatrix", t.name);
		if (getAccessorTypeName(t.t) != t.name) V("typeName", t.name + std::string(" is ") + S(getAccessorTypeName(t.t)));
		if (getAccessorType(t.name) != t.t) V("typeFromName", t.name);
		for (auto& c : COMPS) {
			std::size_t col = t.rows * c.size; if (t.cols > 1) col = (col + 3) / 4 * 4; std::size_t want = col * t.cols;
			if (getElementByteSize(t.t, c.t) != want) V("elementByteSize", std::string(t.name) + " of " + std::to_string(c.gl) + " is " + std::to_string(getElementByteSize(t.t, c.t)) + " expected " + std::to_string(want));
			M->count("type_component_pairs"); M->seen(c.gl * 1000u + t.n * 10 + t.rows);
		}
	}
	if (getNumComponents(AccessorType::Invalid) != 0) V("numComponents:invalid"); if (getAccessorTypeName(AccessorType::Invalid) != "") V("typeName:invalid");
	for (auto& c : COMPS) {
		if (getComponentByteSize(c.t) != c.size) V("componentByteSize", std::to_string(c.gl)); if (getComponentBitSize(c.t) != c.size * 8) V("componentBitSize", std::to_string(c.gl));
		if (getGLComponentType(c.t) != c.gl) V("glComponentType", std::to_string(c.gl) + " is " + std::to_string(getGLComponentType(c.t)));
	}
	if (getComponentByteSize(ComponentType::Invalid) != 0 || getComponentBitSize(ComponentType::Invalid) != 0) V("componentByteSize:invalid");
	for (unsigned v = 0; v < 65536; ++v) { auto want = ComponentType::Invalid; for (auto& c : COMPS) if (c.gl == v) want = c.t; if (getComponentType(static_cast<std::uint16_t>(v)) != want) { V("componentFromGL", std::to_string(v)); break; } }
	M->count("component_codes", 65536);
#define EN(e, v) if (static_cast<unsigned long long>(e) != v##ull) V("enum", #e);
	EN(PrimitiveType::Points, 0) EN(PrimitiveType::Lines, 1) EN(PrimitiveType::LineLoop, 2) EN(PrimitiveType::LineStrip, 3) EN(PrimitiveType::Triangles, 4) EN(PrimitiveType::TriangleStrip, 5) EN(PrimitiveType::TriangleFan, 6)
	EN(Filter::Nearest, 9728) EN(Filter::Linear, 9729) EN(Filter::NearestMipMapNearest, 9984) EN(Filter::LinearMipMapNearest, 9985) EN(Filter::NearestMipMapLinear, 9986) EN(Filter::LinearMipMapLinear, 9987)
	EN(Wrap::ClampToEdge, 33071) EN(Wrap::MirroredRepeat, 33648) EN(Wrap::Repeat, 10497) EN(BufferTarget::ArrayBuffer, 34962) EN(BufferTarget::ElementArrayBuffer, 34963)
#undef EN
	for (auto& m : MIMES) if (getMimeTypeString(m.m) != m.s) V("mimeString", m.s);
	if (getMimeTypeString(MimeType::None) != "") V("mimeString:none");
	static const struct { CombineMode m; const char* s; } CM[] = {{CombineMode::Average, "average"}, {CombineMode::Minimum, "minimum"}, {CombineMode::Maximum, "maximum"}, {CombineMode::Multiply, "multiply"}};
	for (auto& c : CM) { if (getCombineMode(c.s) != c.m) V("combineMode", c.s); if (getFrictionCombineName(c.m) != c.s) V("combineName", c.s); }
	if (getDriveType("linear") != DriveType::Linear || getDriveType("angular") != DriveType::Angular || getDriveMode("force") != DriveMode::Force || getDriveMode("acceleration") != DriveMode::Acceleration) V("driveNames");
	std::set<std::string> names; for (unsigned e = 0; e <= 14; ++e) { auto n = S(getErrorName(static_cast<Error>(e))); if (n.empty() || !names.insert(n).second) V("errorName", std::to_string(e)); auto m = S(getErrorMessage(static_cast<Error>(e))); if (m.empty() != (e == 0 || e == 8)) V("errorMessage", n); }
	static const struct { Error e; const char* n; } EN_[] = {{Error::None, "None"}, {Error::InvalidPath, "InvalidPath"}, {Error::MissingExtensions, "MissingExtensions"}, {Error::UnknownRequiredExtension, "UnknownRequiredExtension"}, {Error::InvalidJson, "InvalidJson"}, {Error::InvalidGltf, "InvalidGltf"}, {Error::InvalidOrMissingAssetField, "InvalidOrMissingAssetField"}, {Error::InvalidGLB, "InvalidGLB"}, {Error::MissingField, "MissingField"}, {Error::MissingExternalBuffer, "MissingExternalBuffer"}, {Error::UnsupportedVersion, "UnsupportedVersion"}, {Error::InvalidURI, "InvalidURI"}, {Error::InvalidFileData, "InvalidFileData"}, {Error::FailedWritingFiles, "FailedWritingFiles"}, {Error::FileBufferAllocationFailed, "FileBufferAllocationFailed"}};
	for (auto& e : EN_) if (getErrorName(e.e) != e.n) V("errorName", e.n);
}
static std::string mutate(Rng& r, std::string s) {
	switch (r.below(9)) {
		case 0: if (!s.empty()) s.pop_back(); break;
		case 1: s += static_cast<char>(32 + r.below(95)); break;
		case 2: if (!s.empty()) s.erase(0, 1); break;
		case 3: s.insert(s.begin(), ' '); break;
		case 4: s += ' '; break;
		case 5: if (!s.empty()) { auto p = r.below(s.size()); s[p] = static_cast<char>(s[p] ^ 0x20); } break;
		case 6: if (!s.empty()) { auto p = r.below(s.size()); s[p] = static_cast<char>(32 + r.below(95)); } break;
		case 7: s += std::string(1, '\0') + "x"; break;
		case 8: s = s.substr(0, r.below(s.size() + 1)); break;
	}
	return s;
}
template <typename T> using Pick = T;
static void unknownNames(Rng& r, long) {
	auto& t = TYPES[r.below(7)]; auto s = mutate(r, t.name); bool known = false; for (auto& x : TYPES) known |= s == x.name;
	std::unique_ptr<char[]> h(new char[s.size()]); std::memcpy(h.get(), s.data(), s.size()); std::string_view v(h.get(), s.size()); // no terminator to lean on
	M->count("unknown_names", 4); M->seenBytes(s.data(), s.size());
	if (!known && getAccessorType(v) != AccessorType::Invalid) V("typeFromUnknown", s);
	static const char* cm[] = {"average", "minimum", "maximum", "multiply"}; auto c = mutate(r, cm[r.below(4)]); known = false; for (auto x : cm) known |= c == x; if (!known && getCombineMode(c) != CombineMode::Invalid) V("combineFromUnknown", c);
	static const char* dt[] = {"linear", "angular"}; auto d = mutate(r, dt[r.below(2)]); if (d != "linear" && d != "angular" && getDriveType(d) != DriveType::Invalid) V("driveTypeFromUnknown", d);
	static const char* dm[] = {"force", "acceleration"}; auto e = mutate(r, dm[r.below(2)]); if (e != "force" && e != "acceleration" && getDriveMode(e) != DriveMode::Invalid) V("driveModeFromUnknown", e);
}
static void extensions_(Rng& r, long) {
	Extensions m = Extensions::None; std::set<std::string> want; const ExtRow* low = nullptr;
	for (auto& e : EXTS) if (r.chance(1, 4)) { m |= e.e; want.insert(e.name); if (!low || static_cast<std::uint64_t>(e.e) < static_cast<std::uint64_t>(low->e)) low = &e; }
	auto list = stringifyExtensionBits(m); std::set<std::string> got; for (auto& x : list) got.insert(std::string(x.data(), x.size()));
	M->count("extension_sets"); M->seen(static_cast<std::uint64_t>(m));
	if (got != want || list.size() != want.size()) V("stringifyExtensionBits", std::to_string(static_cast<std::uint64_t>(m)));
	if (S(stringifyExtension(m)) != (low ? low->name : "")) V("stringifyExtension", S(stringifyExtension(m)) + " for the lowest bit " + (low ? low->name : "none"));
	auto& a = EXTS[r.below(std::size(EXTS))]; if (S(stringifyExtension(a.e)) != a.name) V("stringifyExtension:single", a.name);
	if (((m | a.e) & a.e) != a.e || (m & ~a.e & a.e) != Extensions::None || hasBit(m, a.e) != (want.count(a.name) > 0)) V("flags", a.name);
	Extensions q = m; q |= a.e; if (q != (m | a.e)) V("flags:|="); q &= a.e; if (q != a.e) V("flags:&=");
	// arbitrary bits, known or not
	auto any = static_cast<Extensions>(r.next()); auto l2 = stringifyExtensionBits(any); std::size_t n = 0; for (auto& e : EXTS) if ((static_cast<std::uint64_t>(any) & static_cast<std::uint64_t>(e.e))) ++n; if (l2.size() != n) V("stringifyExtensionBits:any", std::to_string(static_cast<std::uint64_t>(any)));
}
static void extensionTable() {
	std::set<std::uint64_t> bits; for (auto& e : EXTS) { auto b = static_cast<std::uint64_t>(e.e); if (!b || (b & (b - 1)) || !bits.insert(b).second) V("extensionBit", e.name); }
	if (extensionStrings.size() != std::size(EXTS)) V("extensionCount"); std::size_t hit = 0; for (auto& [n, e] : extensionStrings) for (auto& x : EXTS) if (n == x.name && e == x.e) ++hit; if (hit != std::size(EXTS)) V("extensionStrings");
	M->seen(hit);
}
template <typename T> void intUtils(Rng& r, const char* n) {
	using U = std::make_unsigned_t<T>; constexpr int D = std::numeric_limits<U>::digits;
	U v = static_cast<U>(r.next() >> r.below(64)); if (r.chance(1, 10)) v = 0; if (r.chance(1, 10)) v = static_cast<U>(~U(0)); if (r.chance(1, 4)) v = static_cast<U>(U(1) << r.below(D));
	int lz = 0; while (lz < D && !((v >> (D - 1 - lz)) & 1)) ++lz; int pc = 0; for (int i = 0; i < D; ++i) pc += (v >> i) & 1;
	if (static_cast<int>(clz<U>(v)) != lz) V(std::string("clz:") + n, std::to_string(v)); if (static_cast<int>(popcount<U>(v)) != pc) V(std::string("popcount:") + n, std::to_string(v));
	U bs = 0; for (unsigned i = 0; i < sizeof(U); ++i) bs = static_cast<U>(bs | (static_cast<U>((static_cast<unsigned long long>(v) >> (8 * i)) & 0xff) << (8 * (sizeof(U) - 1 - i)))); if (byteswap<U>(v) != bs) V(std::string("byteswap:") + n, std::to_string(v));
	M->count("integer_checks", 3); M->seen(static_cast<std::uint64_t>(v) * 31 + sizeof(T));
}
static void utils(Rng& r, long) {
	intUtils<std::uint8_t>(r, "u8"); intUtils<std::uint16_t>(r, "u16"); intUtils<std::uint32_t>(r, "u32"); intUtils<std::uint64_t>(r, "u64");
	std::size_t b = r.below(1u << 20), a = std::size_t(1) << r.below(10); auto u = alignUp(b, static_cast<int>(a)), d = alignDown(b, a);
	if (u < b || u - b >= a || u % a) V("alignUp", std::to_string(b) + " to " + std::to_string(a)); if (d > b || b - d >= a || d % a) V("alignDown", std::to_string(b) + " to " + std::to_string(a));
	auto i = static_cast<std::int64_t>(r.next()); if (i != INT64_MIN && uabs(i) != static_cast<std::uint64_t>(i < 0 ? -i : i)) V("uabs");
	std::string s(r.below(6), 'a'), p(r.below(6), 'a'); if (r.chance(1, 3) && !p.empty()) p.back() = 'b'; if (startsWith(s, p) != (s.compare(0, p.size(), p) == 0)) V("startsWith", s + "/" + p);
}
// ---- through the parser ------------------------------------------------------------------------
static Expected<Asset> load(const std::string& js, Extensions e = Extensions::None, Options o = Options::None) { Parser p(e); auto b = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(js.data()), js.size()); return p.loadGltfJson(b.get(), {}, o); }
static std::string q(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { char b[8]; if (c < 32 || c == '"' || c == '\\' || c == 127) { std::snprintf(b, 8, "\\u%04x", c); o += b; } else o += static_cast<char>(c); } return o + "\""; }
static void codes(Rng& r, long idx) { // every 16-bit component code and codes beyond 16 bits
	for (int k = 0; k < 64; ++k) {
		std::uint64_t v = static_cast<std::uint64_t>(idx) * 64 + k; if (idx >= 1024) v = (r.next() >> r.below(60)) + (r.chance(1, 2) ? 0 : (65536ull * (1 + r.below(1000)) + 5120 + r.below(11)) ); else if (idx >= 1000) v = 65536ull * (idx - 999) + 5120 + static_cast<std::uint64_t>(k) % 12;
		const CompRow* c = nullptr; for (auto& x : COMPS) if (x.gl == v) c = &x;
		if (idx < 1000 && !c && (v < 5000 || v > 5300) && k % 8) continue;
		auto a = load("{\"asset\":{\"version\":\"2.0\"},\"accessors\":[{\"count\":1,\"type\":\"SCALAR\",\"componentType\":" + std::to_string(v) + "}]}", Extensions::KHR_accessor_float64, Options::AllowDouble);
		M->count("parsed_codes"); M->seen(v);
		if (v == 5124) continue; // not a glTF code; the library documents it as an extra
		if (c ? (a.error() != Error::None || a.get().accessors.at(0).componentType != c->t) : a.error() == Error::None) V(c ? "parse:known-code" : "parse:unknown-code", std::to_string(v));
	}
}
static void parsedNames(Rng& r, long) {
	auto& t = TYPES[r.below(7)]; std::string s = r.chance(1, 4) ? t.name : mutate(r, t.name); const TypeRow* tr = nullptr; for (auto& x : TYPES) if (s == x.name) tr = &x;
	auto a = load("{\"asset\":{\"version\":\"2.0\"},\"accessors\":[{\"count\":1,\"type\":" + q(s) + ",\"componentType\":5126}]}"); M->count("parsed_names", 3); M->seenBytes(s.data(), s.size(), 3);
	if (tr ? (a.error() != Error::None || a.get().accessors.at(0).type != tr->t) : a.error() == Error::None) V("parse:type-name", s);
	auto& m = MIMES[r.below(7)]; std::string ms = r.chance(1, 3) ? m.s : mutate(r, m.s); MimeType want = MimeType::None; for (auto& x : MIMES) if (ms == x.s) want = x.m;
	auto i = load("{\"asset\":{\"version\":\"2.0\"},\"buffers\":[{\"byteLength\":4,\"uri\":\"a.bin\"}],\"bufferViews\":[{\"buffer\":0,\"byteLength\":4}],\"images\":[{\"bufferView\":0,\"mimeType\":" + q(ms) + "},{\"uri\":\"a.bin\",\"mimeType\":" + q(ms) + "}]}");
	if (i.error() == Error::None) { if (auto* v = std::get_if<sources::BufferView>(&i.get().images.at(0).data); !v || v->mimeType != want) V("parse:mime-view", ms); if (auto* v = std::get_if<sources::URI>(&i.get().images.at(1).data); !v || v->mimeType != want) V("parse:mime-uri", ms); } else if (want != MimeType::None) V("parse:mime-rejected", ms + " " + S(getErrorName(i.error())));
	static const struct { const char* n; LightType t; } LT[] = {{"directional", LightType::Directional}, {"spot", LightType::Spot}, {"point", LightType::Point}};
	auto& l = LT[r.below(3)]; std::string ls = r.chance(1, 3) ? l.n : mutate(r, l.n); const LightType* lt = nullptr; for (auto& x : LT) if (ls == x.n) lt = &x.t;
	auto g = load("{\"asset\":{\"version\":\"2.0\"},\"extensionsUsed\":[\"KHR_lights_punctual\"],\"extensions\":{\"KHR_lights_punctual\":{\"lights\":[{\"type\":" + q(ls) + ",\"spot\":{}}]}}}", Extensions::KHR_lights_punctual);
	if (lt ? (g.error() != Error::None || g.get().lights.at(0).type != *lt) : g.error() == Error::None) V("parse:light-type", ls);
	// data URI MIME types
	auto d = load("{\"asset\":{\"version\":\"2.0\"},\"images\":[{\"uri\":" + q("data:" + ms + ";base64,AAAA") + "}]}");
	if (d.error() == Error::None && ms.find_first_of(",;%") == std::string::npos) { if (auto* v = std::get_if<sources::Array>(&d.get().images.at(0).data)) { if (v->mimeType != want) V("parse:mime-data-uri", ms); } }
}
static void parsedExtensions(Rng& r, long) {
	auto& e = EXTS[r.below(std::size(EXTS))]; std::string n = r.chance(1, 2) ? e.name : mutate(r, e.name); bool known = false; Extensions bit = Extensions::None; for (auto& x : EXTS) if (n == x.name) { known = true; bit = x.e; }
	std::string js = "{\"asset\":{\"version\":\"2.0\"},\"extensionsUsed\":[" + q(n) + "],\"extensionsRequired\":[" + q(n) + "]}"; Extensions all = Extensions::None; for (auto& x : EXTS) all |= x.e;
	M->count("parsed_extensions", 2); M->seenBytes(n.data(), n.size(), 7);
	auto a = load(js, known ? bit : all); if (known ? a.error() != Error::None : a.error() != Error::UnknownRequiredExtension) V("parse:extension-alone", n + " gives " + S(getErrorName(a.error())));
	if (known) { auto b = load(js, all & ~bit); if (b.error() != Error::MissingExtensions) V("parse:extension-missing", n + " gives " + S(getErrorName(b.error()))); }
}
// unknown strings whose checksum equals that of a recognised one
static void collisions() {
	auto mime = load(R"({"asset":{"version":"2.0"},"images":[{"uri":"a.bin","mimeType":"q4bog2qh"}]})");
	if (mime.error() == Error::None && std::get<sources::URI>(mime.get().images.at(0).data).mimeType != MimeType::None) V("collision:mimeType:q4bog2qh", "read as image/png");
	auto root = load(R"({"asset":{"version":"2.0"},"qvcdqalc":[{}]})"); if (root.error() == Error::None && !root.get().nodes.empty()) V("collision:root:qvcdqalc", "read as nodes");
	auto light = load(R"({"asset":{"version":"2.0"},"extensionsUsed":["KHR_lights_punctual"],"extensions":{"KHR_lights_punctual":{"lights":[{"type":"qlg0zdqv","spot":{}}]}}})", Extensions::KHR_lights_punctual); if (light.error() == Error::None) V("collision:light:qlg0zdqv", "read as spot");
	auto mat = load(R"({"asset":{"version":"2.0"},"materials":[{"extensions":{"qfeiohcx":{}}}]})", Extensions::KHR_materials_unlit); if (mat.error() == Error::None && mat.get().materials.at(0).unlit) V("collision:material:qfeiohcx", "read as KHR_materials_unlit");
	auto tex = load(R"({"asset":{"version":"2.0"},"images":[{"uri":"a"}],"textures":[{"extensions":{"q3ehlxcq":{"source":0}}}]})", Extensions::KHR_texture_basisu); if (tex.error() == Error::None && tex.get().textures.at(0).basisuImageIndex.has_value()) V("collision:texture:q3ehlxcq", "read as KHR_texture_basisu");
	M->count("collisions", 5); M->seen(0xc0111510);
}
int main(int argc, char** argv) {
	Mon m(argc, argv); M = &m;
	m.run("crc", m.scale(6000, 200000), [&](Rng& r, long i) { crcCase(r, i); });
	m.run("keys", 1, [&](Rng&, long) { crcKeys(); });
	m.run("types", 1, [&](Rng&, long) { types(); });
	m.run("extension_table", 1, [&](Rng&, long) { extensionTable(); });
	m.run("unknown_names", m.scale(8000, 200000), [&](Rng& r, long i) { unknownNames(r, i); });
	m.run("extension_sets", m.scale(4000, 100000), [&](Rng& r, long i) { extensions_(r, i); });
	m.run("utils", m.scale(8000, 200000), [&](Rng& r, long i) { utils(r, i); });
	m.run("codes", m.scale(1100, 4000), [&](Rng& r, long i) { codes(r, i); });
	m.run("parsed_names", m.scale(3000, 60000), [&](Rng& r, long i) { parsedNames(r, i); });
	m.run("parsed_extensions", m.scale(1500, 30000), [&](Rng& r, long i) { parsedExtensions(r, i); });
	m.run("collisions", 1, [&](Rng&, long) { collisions(); });
	return m.done();
}
