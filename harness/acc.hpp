// Part of c15_main.cpp (compiled in four parts). C15 / C16: every accessor read path against an independent reading of the stored bytes.
#pragma once
#include "mon.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <type_traits>
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
namespace fg = fastgltf;
using fg::AccessorType; using fg::ComponentType;

// ---- user element types the traits mechanism promises to support
struct RowMat3 { float m[9]; };                       // aggregate, row-major (needs transpose)
struct RowMat2 { float m[4]; };
struct NonTrivial {                                   // not trivially copyable
	float v[3]; static inline long live = 0;
	NonTrivial() : v{0, 0, 0} { ++live; }
	NonTrivial(float a, float b, float c) : v{a, b, c} { ++live; }
	NonTrivial(const NonTrivial& o) : v{o.v[0], o.v[1], o.v[2]} { ++live; }
	NonTrivial& operator=(const NonTrivial& o) { for (int i = 0; i < 3; ++i) v[i] = o.v[i]; return *this; }
	~NonTrivial() { --live; }
};
struct PlainVec4 { double v[4]; };                    // aggregate of another component type
struct ByteQuad { std::uint8_t r, g, b, a; };
namespace fastgltf {
template<> struct ElementTraits<RowMat3> : ElementTraitsBase<RowMat3, AccessorType::Mat3, float, true> {};
template<> struct ElementTraits<RowMat2> : ElementTraitsBase<RowMat2, AccessorType::Mat2, float, true> {};
template<> struct ElementTraits<NonTrivial> : ElementTraitsBase<NonTrivial, AccessorType::Vec3, float> {};
template<> struct ElementTraits<PlainVec4> : ElementTraitsBase<PlainVec4, AccessorType::Vec4, double> {};
template<> struct ElementTraits<ByteQuad> : ElementTraitsBase<ByteQuad, AccessorType::Vec4, std::uint8_t> {};
template<> struct ElementTraits<math::dmat4x4> : ElementTraitsBase<math::dmat4x4, AccessorType::Mat4, double> {};
template<> struct ElementTraits<math::mat<std::int16_t, 3, 3>> : ElementTraitsBase<math::mat<std::int16_t, 3, 3>, AccessorType::Mat3, std::int16_t> {};
template<> struct ElementTraits<math::mat<std::uint8_t, 2, 2>> : ElementTraitsBase<math::mat<std::uint8_t, 2, 2>, AccessorType::Mat2, std::uint8_t> {};
}
template <typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> T comp(const T& e, int) { return e; }
template <typename T, std::size_t N> T comp(const fg::math::vec<T, N>& e, int k) { return e[k]; }
template <typename T> T comp(const fg::math::quat<T>& e, int k) { return e[k]; }
template <typename T, std::size_t N, std::size_t M> T comp(const fg::math::mat<T, N, M>& e, int k) { return e.col(k / N)[k % N]; }
inline float comp(const RowMat3& e, int k) { return e.m[(k % 3) * 3 + k / 3]; }
inline float comp(const RowMat2& e, int k) { return e.m[(k % 2) * 2 + k / 2]; }
inline float comp(const NonTrivial& e, int k) { return e.v[k]; }
inline double comp(const PlainVec4& e, int k) { return e.v[k]; }
inline std::uint8_t comp(const ByteQuad& e, int k) { return k == 0 ? e.r : k == 1 ? e.g : k == 2 ? e.b : e.a; }
#if PART == 4 && __has_include(<glm/glm.hpp>)
#include <glm/glm.hpp>
#include <glm/gtc/type_precision.hpp>
#include <fastgltf/glm_element_traits.hpp>
template <int L, typename T, glm::qualifier Q> T comp(const glm::vec<L, T, Q>& e, int k) { return e[k]; }
template <int C, int R_, typename T, glm::qualifier Q> T comp(const glm::mat<C, R_, T, Q>& e, int k) { return e[k / R_][k % R_]; }
#endif
#if PART == 5
#include <fastgltf/dxmath_element_traits.hpp> // its storage types are stand-ins, see DirectXMath.h here
template <typename T> auto comp(const T& e, int k) -> decltype(e.x + e.y, std::decay_t<decltype(e.x)>()) { std::decay_t<decltype(e.x)> c; std::memcpy(&c, reinterpret_cast<const char*>(&e) + k * sizeof c, sizeof c); return c; }
inline float comp(const DirectX::XMFLOAT3X3& e, int k) { return e.m[k % 3][k / 3]; } // row-major
inline float comp(const DirectX::XMFLOAT4X4& e, int k) { return e.m[k % 4][k / 4]; }
#endif

// ---- the specification's tables, independent of the library
static int nComp(AccessorType t) { switch (t) { case AccessorType::Scalar: return 1; case AccessorType::Vec2: return 2; case AccessorType::Vec3: return 3; case AccessorType::Vec4: return 4; case AccessorType::Mat2: return 4; case AccessorType::Mat3: return 9; case AccessorType::Mat4: return 16; default: return 0; } }
static int nRows(AccessorType t) { switch (t) { case AccessorType::Mat2: return 2; case AccessorType::Mat3: return 3; case AccessorType::Mat4: return 4; default: return 0; } }
static int cSize(ComponentType c) { switch (c) { case ComponentType::Byte: case ComponentType::UnsignedByte: return 1; case ComponentType::Short: case ComponentType::UnsignedShort: return 2; case ComponentType::Double: return 8; default: return 4; } }
static int colBytes(AccessorType t, ComponentType c) { int b = nRows(t) * cSize(c); return (b + 3) / 4 * 4; }
static int compOff(AccessorType t, ComponentType c, int k) { int r = nRows(t); return r ? (k / r) * colBytes(t, c) + (k % r) * cSize(c) : k * cSize(c); }
static int eSize(AccessorType t, ComponentType c) { int r = nRows(t); return r ? r * colBytes(t, c) : nComp(t) * cSize(c); }
static int eUsed(AccessorType t, ComponentType c) { return compOff(t, c, nComp(t) - 1) + cSize(c); }
static const ComponentType CTS[] = { ComponentType::Byte, ComponentType::UnsignedByte, ComponentType::Short, ComponentType::UnsignedShort, ComponentType::UnsignedInt, ComponentType::Float, ComponentType::Int, ComponentType::Double };
static const char* cName(ComponentType c) { switch (c) { case ComponentType::Byte: return "i8"; case ComponentType::UnsignedByte: return "u8"; case ComponentType::Short: return "i16"; case ComponentType::UnsignedShort: return "u16"; case ComponentType::Int: return "i32"; case ComponentType::UnsignedInt: return "u32"; case ComponentType::Float: return "f32"; default: return "f64"; } }
static const char* tName(AccessorType t) { static const char* n[] = { "?", "scalar", "vec2", "vec3", "vec4", "mat2", "mat3", "mat4" }; return n[static_cast<int>(t) & 7]; }

// a stored component, exactly
struct Val { bool flt; long long i; double d; bool nan() const { return flt && std::isnan(d); } };
static Val rd(const std::uint8_t* p, ComponentType c) {
	Val v{}; 
	switch (c) {
		case ComponentType::Byte: v.i = static_cast<std::int8_t>(p[0]); break;
		case ComponentType::UnsignedByte: v.i = p[0]; break;
		case ComponentType::Short: v.i = static_cast<std::int16_t>(p[0] | p[1] << 8); break;
		case ComponentType::UnsignedShort: v.i = static_cast<std::uint16_t>(p[0] | p[1] << 8); break;
		case ComponentType::Int: { std::int32_t x; std::memcpy(&x, p, 4); v.i = x; break; }
		case ComponentType::UnsignedInt: { std::uint32_t x; std::memcpy(&x, p, 4); v.i = x; break; }
		case ComponentType::Float: { float x; std::memcpy(&x, p, 4); v.flt = true; v.d = x; break; }
		default: { std::memcpy(&v.d, p, 8); v.flt = true; break; }
	}
	return v;
}
static double srcMax(ComponentType c) { switch (c) { case ComponentType::Byte: return 127; case ComponentType::UnsignedByte: return 255; case ComponentType::Short: return 32767; default: return 65535; } }
// 1: value must match, 0: outside what the specification defines
template <typename D> int expect(Val v, ComponentType c, bool norm, D& out, double& tol) {
	tol = 0;
	if constexpr (std::is_floating_point_v<D>) {
		if (v.flt) { out = static_cast<D>(v.d); return 1; }
		if (norm) { double q = static_cast<double>(v.i) / srcMax(c); if (q < -1) q = -1; out = static_cast<D>(q); tol = sizeof(D) == 4 ? 1.2e-7 : 3e-16; return 1; }
		out = static_cast<D>(v.i); return 1;
	} else {
		if (norm) { out = static_cast<D>(v.i); return !v.flt && static_cast<long long>(out) == v.i && sizeof(D) == static_cast<std::size_t>(cSize(c)) && std::is_signed_v<D> == (c == ComponentType::Byte || c == ComponentType::Short); }
		if (v.flt) { if (!(v.d > static_cast<double>(std::numeric_limits<D>::min()) - 1 && v.d < static_cast<double>(std::numeric_limits<D>::max()) + 1)) return 0; out = static_cast<D>(v.d); return 1; }
		if (v.i < static_cast<long long>(std::numeric_limits<D>::min()) || v.i > static_cast<long long>(std::numeric_limits<D>::max())) return 0;
		out = static_cast<D>(v.i); return 1;
	}
}
template <typename D> bool eq(D a, D b, double tol) {
	if constexpr (std::is_floating_point_v<D>) {
		if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
		if (a == b) return true;
		return std::abs(static_cast<double>(a) - static_cast<double>(b)) <= tol * std::max(std::abs(static_cast<double>(a)), std::abs(static_cast<double>(b)));
	} else return a == b;
}

struct Scene {
	fg::Asset asset; fg::Accessor acc; std::vector<std::vector<std::uint8_t>> keep;
	std::vector<const std::uint8_t*> elem;       // where each element's bytes are; null: zeros
	std::string desc;
	const char* srcKind = "";
};
static void store(ComponentType c, std::uint8_t* p, Rng& r, bool intDest) {
	auto put = [&](auto x) { std::memcpy(p, &x, sizeof x); };
	bool extreme = r.chance(1, 3);
	switch (c) {
		case ComponentType::Byte: put(static_cast<std::int8_t>(extreme ? std::vector<int>{-128, -127, -126, -1, 0, 1, 126, 127}[r.below(8)] : r.range(-128, 127))); break;
		case ComponentType::UnsignedByte: put(static_cast<std::uint8_t>(extreme ? std::vector<int>{0, 1, 127, 128, 254, 255}[r.below(6)] : r.range(0, 255))); break;
		case ComponentType::Short: put(static_cast<std::int16_t>(extreme ? std::vector<int>{-32768, -32767, -32766, -256, -129, -1, 0, 1, 255, 256, 32767}[r.below(11)] : r.range(-32768, 32767))); break;
		case ComponentType::UnsignedShort: put(static_cast<std::uint16_t>(extreme ? std::vector<int>{0, 1, 255, 256, 32767, 32768, 65534, 65535}[r.below(8)] : r.range(0, 65535))); break;
		case ComponentType::Int: put(static_cast<std::int32_t>(r.chance(1, 2) ? r.range(-100, 100) : static_cast<std::int32_t>(r.next()))); break;
		case ComponentType::UnsignedInt: put(static_cast<std::uint32_t>(r.chance(1, 2) ? r.range(0, 300) : static_cast<std::uint32_t>(r.next()))); break;
		case ComponentType::Float: {
			float f = static_cast<float>(r.uni(-1000, 1000));
			if (intDest) f = static_cast<float>(r.uni(0, 126)); 
			else if (extreme) f = std::vector<float>{0.f, -0.f, 1.f, -1.f, 1e-30f, 1e38f, -3.4e38f, 1.4e-45f, INFINITY, -INFINITY, NAN, 16777217.f}[r.below(12)];
			put(f); break; }
		default: {
			double f = r.uni(-1000, 1000); if (intDest) f = r.uni(0, 126); else if (extreme) f = std::vector<double>{0., -0., 1., -1., 1e-30, 1e37, 0.1, 1.0 / 3, INFINITY, NAN}[r.below(10)];
			put(f); break; }
	}
}
// put a block of bytes into the asset as buffer + view (offset/padding around it), returns view index
static std::size_t addView(Scene& s, Rng& r, std::vector<std::uint8_t> bytes, fg::Optional<std::size_t> stride, std::size_t align, const char** kind = nullptr) {
	std::size_t off = r.chance(1, 2) ? 0 : align * r.below(9), tail = r.chance(1, 2) ? 0 : r.below(17);
	std::vector<std::uint8_t> all(off + bytes.size() + tail);
	for (auto& b : all) b = static_cast<std::uint8_t>(r.next());
	std::memcpy(all.data() + off, bytes.data(), bytes.size());
	fg::Buffer buf; buf.byteLength = all.size();
	int k = static_cast<int>(r.below(3));
	auto* pb = reinterpret_cast<const std::byte*>(all.data());
	if (k == 0) { fg::StaticVector<std::byte> v(all.size()); std::memcpy(v.data(), pb, all.size()); buf.data = fg::sources::Array{ std::move(v), fg::MimeType::GltfBuffer }; if (kind) *kind = "array"; }
	else if (k == 1) { std::vector<std::byte> v(pb, pb + all.size()); v.shrink_to_fit(); fg::sources::Vector sv; sv.bytes = std::move(v); buf.data = std::move(sv); if (kind) *kind = "vector"; }
	else { s.keep.emplace_back(all); s.keep.back().shrink_to_fit(); buf.data = fg::sources::ByteView{ fg::span<const std::byte>(reinterpret_cast<const std::byte*>(s.keep.back().data()), all.size()), fg::MimeType::GltfBuffer }; if (kind) *kind = "byteview"; }
	s.asset.buffers.emplace_back(std::move(buf));
	fg::BufferView v{}; v.bufferIndex = s.asset.buffers.size() - 1; v.byteOffset = off; v.byteLength = bytes.size();
	if (stride.has_value()) v.byteStride = *stride;
	s.asset.bufferViews.emplace_back(std::move(v));
	return s.asset.bufferViews.size() - 1;
}
static const std::uint8_t* viewPtr(Scene& s, std::size_t v) {
	auto sp = fg::DefaultBufferDataAdapter{}(s.asset, v);   // only used to keep track of exact addresses below
	return reinterpret_cast<const std::uint8_t*>(sp.data());
}
enum class Mode { Plain, Sparse };
static void build(Scene& s, Rng& r, AccessorType t, ComponentType c, bool norm, bool intDest, Mode mode, long idx, std::vector<std::vector<std::uint8_t>>& raw) {
	s.keep.reserve(8);
	const int es = eSize(t, c), used = eUsed(t, c), n = nComp(t), cs = cSize(c);
	std::size_t count = r.chance(1, 4) ? 1 : r.chance(1, 3) ? 1 + r.below(4) : 1 + r.below(40);
	if (mode == Mode::Sparse && r.chance(1, 6)) count = 256 + r.below(600);       // past the 8-bit index range
	if (mode == Mode::Sparse && idx % 241 == 5) count = 65536 + r.below(300);     // past the 16-bit one
	auto& a = s.acc; a.type = t; a.componentType = c; a.normalized = norm; a.count = count; a.byteOffset = 0;
	auto elem = [&](std::vector<std::uint8_t>& b, std::size_t at) { for (int k = 0; k < n; ++k) store(c, b.data() + at + compOff(t, c, k), r, intDest); };
	bool base = mode == Mode::Plain ? true : !r.chance(2, 5);
	raw.assign(count, {});
	int stride = es; std::size_t aoff = 0;
	if (base) {
		fg::Optional<std::size_t> st;
		int kind = static_cast<int>(r.below(3));
		if (kind == 1) { st = static_cast<std::size_t>(es); }
		else if (kind == 2 && es <= 252) { stride = (es + 3) / 4 * 4 + 4 * static_cast<int>(r.below(6)); if (stride > 252) stride = 252; if (stride < 4) stride = 4; st = static_cast<std::size_t>(stride); }
		aoff = r.chance(1, 2) ? 0 : static_cast<std::size_t>(cs) * r.below(12);
		// a view that ends right after the last component of the last element, or with the full element
		std::size_t len = aoff + (count - 1) * stride + (r.chance(1, 2) || (kind != 2) ? es : used);
		std::vector<std::uint8_t> b(len); for (auto& x : b) x = static_cast<std::uint8_t>(r.next());
		for (std::size_t i = 0; i < count; ++i) { elem(b, aoff + i * stride); raw[i].assign(b.begin() + aoff + i * stride, b.begin() + aoff + i * stride + used); }
		a.bufferViewIndex = addView(s, r, std::move(b), st, 8, &s.srcKind); a.byteOffset = aoff;
	}
	std::size_t scount = 0; ComponentType ict = ComponentType::Invalid;
	if (mode == Mode::Sparse && !(!base && r.chance(1, 3))) {
		std::size_t lim = count;
		if (count > 65536) ict = ComponentType::UnsignedInt;
		else ict = std::vector<ComponentType>{ ComponentType::UnsignedByte, ComponentType::UnsignedShort, ComponentType::UnsignedInt }[r.below(3)];
		if (count > 65536 && r.chance(1, 2)) { ict = ComponentType::UnsignedShort; lim = 65536; }
		if (ict == ComponentType::UnsignedByte) lim = std::min<std::size_t>(lim, 256);
		std::vector<std::size_t> which;
		int k = static_cast<int>(r.below(6));
		if (k == 0) which = { 0 };
		else if (k == 1) which = { lim - 1 };
		else if (k == 2) { for (std::size_t i = 0; i < lim && i < 2000; ++i) which.push_back(i); }
		else if (k == 3) { which = { 0 }; if (lim > 1) which.push_back(lim - 1); }
		else { std::uint64_t den = 1 + r.below(count > 1000 ? 2000 : 8); for (std::size_t i = 0; i < lim; ++i) if (r.below(den) == 0) which.push_back(i); if (which.empty()) which = { r.below(lim) }; }
		scount = which.size(); int is = cSize(ict);
		std::size_t ioff = r.chance(1, 2) ? 0 : is * r.below(5), voff = r.chance(1, 2) ? 0 : cs * r.below(5);
		std::vector<std::uint8_t> ib(ioff + scount * is), vb(voff + (scount - 1) * es + es);
		for (auto& x : ib) x = static_cast<std::uint8_t>(r.next()); for (auto& x : vb) x = static_cast<std::uint8_t>(r.next());
		for (std::size_t j = 0; j < scount; ++j) {
			for (int q = 0; q < is; ++q) ib[ioff + j * is + q] = static_cast<std::uint8_t>(which[j] >> (8 * q));
			elem(vb, voff + j * es); raw[which[j]].assign(vb.begin() + voff + j * es, vb.begin() + voff + j * es + used);
		}
		fg::SparseAccessor sp{}; sp.count = scount; sp.indexComponentType = ict;
		sp.indicesBufferView = addView(s, r, std::move(ib), {}, 4); sp.indicesByteOffset = ioff;
		sp.valuesBufferView = addView(s, r, std::move(vb), {}, 8); sp.valuesByteOffset = voff;
		a.sparse = sp;
	}
	char d[256]; std::snprintf(d, sizeof d, "%s of %s%s count=%zu stride=%d offset=%zu base=%d sparse=%zu(%s) source=%s", tName(t), cName(c), norm ? " normalized" : "", count, stride, aoff, base, scount, scount ? cName(ict) : "-", s.srcKind);
	s.desc = d;
}

struct OwnAdapter { const Scene* s; mutable long calls = 0; auto operator()(const fg::Asset& a, std::size_t v) const { ++calls; return fg::DefaultBufferDataAdapter{}(a, v); } };

template <typename E> struct TypeName { static const char* n; };

template <typename E> void checkOne(Mon& m, Rng& r, long idx, Mode mode, const char* ename) {
	using Tr = fg::ElementTraits<E>; using D = typename Tr::component_type;
	constexpr auto t = Tr::type; const int n = nComp(t);
	constexpr bool intDest = std::is_integral_v<D>;
	ComponentType c = CTS[r.below(8)];
	if (r.chance(1, 3)) c = Tr::enum_component_type;
	bool norm = (c == ComponentType::Byte || c == ComponentType::UnsignedByte || c == ComponentType::Short || c == ComponentType::UnsignedShort) && r.chance(1, 2);
	Scene s; std::vector<std::vector<std::uint8_t>> raw;
	build(s, r, t, c, norm, intDest, mode, idx, raw);
	const std::size_t count = s.acc.count;
	std::string what = std::string(ename) + " <- " + s.desc;
	// expectations
	struct X { int known; D v; double tol; };
	std::vector<X> ex(count * n);
	for (std::size_t i = 0; i < count; ++i) for (int k = 0; k < n; ++k) {
		X& x = ex[i * n + k]; x = { 1, D(0), 0 };
		if (!raw[i].empty()) x.known = expect<D>(rd(raw[i].data() + compOff(t, c, k), c), c, norm, x.v, x.tol);
	}
	long bad = 0;
	auto chk = [&](const char* path, std::size_t i, int k, D got) {
		X& x = ex[i * n + k];
		if (!x.known) { x.known = 1; x.v = got; return; }       // undefined by the specification: the paths must still agree
		if (!eq<D>(got, x.v, x.tol) && !bad++) {
			char b[160]; std::snprintf(b, sizeof b, ": element %zu component %d is %.9g, must be %.9g", i, k, static_cast<double>(got), static_cast<double>(x.v));
			m.viol(std::string(path) + (s.acc.sparse ? "/sparse" : s.acc.bufferViewIndex ? "/plain" : "/zero") + (nRows(t) ? "/matrix" : "") + (norm ? "/normalized" : ""), what + b);
		}
	};
	auto chkE = [&](const char* path, std::size_t i, const E& e) { for (int k = 0; k < n; ++k) chk(path, i, k, comp(e, k)); };
	auto lens = [&](const char* path, std::size_t got) { if (got != count) m.viol(std::string(path) + "/count", what + ": delivered " + std::to_string(got) + " elements"); };
	bool big = count > 5000;
	long live0 = NonTrivial::live;
	{ // random access, in a scattered order
		std::size_t step = count > 1 ? (r.below(count - 1) | 1) : 1; std::size_t i = 0;
		for (std::size_t q = 0; q < (big ? 600 : count); ++q) { if (!big) i = q; else { i = q < 300 ? q * 217 % count : count - 1 - (q - 300); } chkE("get", i, fg::getAccessorElement<E>(s.asset, s.acc, i)); }
		(void)step;
		for (int q = 0; q < 4; ++q) { i = r.below(count); OwnAdapter ad{ &s }; chkE("get", i, fg::getAccessorElement<E>(s.asset, s.acc, i, ad)); }
	}
	{ std::size_t i = 0; for (auto e : fg::iterateAccessor<E>(s.asset, s.acc)) { if (i < count) chkE("range", i, e); ++i; } lens("range", i); }
	{ // iterators used in every way an input iterator may be: skipped elements, repeated reads, copies
		OwnAdapter ad{ &s }; auto rng = fg::iterateAccessor<E, OwnAdapter>(s.asset, s.acc, ad); auto it = rng.begin(); auto end = rng.end(); std::size_t i = 0;
		if (static_cast<std::size_t>(end - it) != count) m.viol("distance", what);
		while (it != end && i < count) {
			switch (r.below(5)) {
				case 0: ++it; ++i; break;
				case 1: chkE("iter", i, *it); chkE("iter-again", i, *it); ++it; ++i; break;
				case 2: { auto old = it++; chkE("iter-old", i, *old); ++i; break; }
				case 3: { auto cp = it; chkE("iter-copy", i, *cp); chkE("iter", i, *it); ++it; ++i; break; }
				default: chkE("iter", i, *it); ++it; ++i; break;
			}
		}
		if (i != count || it != end) m.viol("iter/count", what);
	}
	{ std::size_t i = 0; fg::iterateAccessor<E>(s.asset, s.acc, [&](E e) { if (i < count) chkE("callback", i, e); ++i; }); lens("callback", i); }
	{ std::size_t i = 0; OwnAdapter ad{ &s }; fg::iterateAccessorWithIndex<E>(s.asset, s.acc, [&](E e, std::size_t j) { if (j != i) m.viol("callback-index/order", what); if (j < count) chkE("callback-index", j, e); ++i; }, ad); lens("callback-index", i); }
	auto copyCheck = [&](const char* path, std::size_t stride, auto&& fn) {
		// exact-size heap destination (sanitizer sees any overrun), bytes between elements guarded by a pattern
		std::size_t bytes = (count - 1) * stride + sizeof(E);
		std::unique_ptr<std::uint8_t[]> mem(new std::uint8_t[bytes]); std::uint8_t pat = static_cast<std::uint8_t>(r.next() | 1);
		std::memset(mem.get(), pat, bytes);
		for (std::size_t i = 0; i < count; ++i) new (mem.get() + i * stride) E();
		if constexpr (std::is_trivially_copyable_v<E>) for (std::size_t i = 0; i < count; ++i) std::memset(mem.get() + i * stride, pat, sizeof(E));
		fn(mem.get());
		for (std::size_t i = 0; i < count; ++i) {
			chkE(path, i, *reinterpret_cast<E*>(mem.get() + i * stride));
			if (i + 1 < count) for (std::size_t g = sizeof(E); g < stride; ++g) if (mem[i * stride + g] != pat) { m.viol(std::string(path) + "/outside", what + ": wrote outside the destination elements (stride " + std::to_string(stride) + ")"); g = stride; i = count; }
		}
		for (std::size_t i = 0; i < count; ++i) reinterpret_cast<E*>(mem.get() + i * stride)->~E();
	};
	copyCheck("copy", sizeof(E), [&](void* d) { fg::copyFromAccessor<E>(s.asset, s.acc, d); });
	if (!big) {
		constexpr std::size_t S1 = sizeof(E) + alignof(E), S2 = (sizeof(E) + 15) / 8 * 8, S3 = sizeof(E) + 64;
		OwnAdapter ad{ &s };
		copyCheck("copy-strided", S1, [&](void* d) { fg::copyFromAccessor<E, S1>(s.asset, s.acc, d); });
		copyCheck("copy-strided", S2, [&](void* d) { fg::copyFromAccessor<E, S2>(s.asset, s.acc, d, ad); });
		copyCheck("copy-strided", S3, [&](void* d) { fg::copyFromAccessor<E, S3>(s.asset, s.acc, d); });
	}
	if (!s.acc.sparse) { // linear component list in the destination component type
		std::unique_ptr<D[]> mem(new D[count * n]); std::memset(static_cast<void*>(mem.get()), 0xC3, sizeof(D) * count * n);
		fg::copyComponentsFromAccessor<D>(s.asset, s.acc, mem.get());
		for (std::size_t i = 0; i < count; ++i) for (int k = 0; k < n; ++k) chk("components", i, k, mem[i * n + k]);
	}
	if (NonTrivial::live != live0) m.viol("lifetime", what + ": elements constructed and not destroyed");
	m.count(std::string("elements"), count); m.count(std::string("src_") + cName(c)); m.count(std::string("type_") + tName(t)); m.count(std::string("dst_") + ename);
	if (s.acc.sparse) { m.count("sparse"); m.count("substituted", s.acc.sparse->count); } if (!s.acc.bufferViewIndex) m.count("storageless"); if (norm) m.count("normalized");
	std::uint64_t h = 0; for (auto& x : ex) { std::uint64_t u = 0; std::memcpy(&u, &x.v, sizeof(D)); h = (h ^ u) * 1099511628211ULL + 7; } m.seen(h);
	if (idx % 977 == 3) m.sample(what);
}
template <typename E> void reg(Mon& m, Mode mode, const char* n, long q, long th) {
	m.run(n, m.scale(q, th), [&](Rng& r, long i) { checkOne<E>(m, r, i, mode, n); });
}
#ifdef C16
static const Mode mode = Mode::Sparse; static const long q = 240, th = 6000;
#else
static const Mode mode = Mode::Plain; static const long q = 400, th = 10000;
#endif
#define R(T) reg<T>(m, mode, #T, q, th)
using namespace fg::math;
#if PART == 0
void part1(Mon&); void part2(Mon&); void part3(Mon&); void part4(Mon&); void part5(Mon&);
int main(int argc, char** argv) {
	Mon m(argc, argv);
	R(std::int8_t); R(std::uint8_t); R(std::int16_t); R(std::uint16_t); R(std::int32_t); R(std::uint32_t); R(float); R(double); R(fvec2); R(fvec3); R(fvec4);
	part1(m); part2(m); part3(m); part4(m); part5(m);
	return m.done();
}
#elif PART == 1
void part1(Mon& m) {
	R(s8vec2); R(s8vec3); R(s8vec4); R(u8vec2); R(u8vec3); R(u8vec4);
	R(s16vec2); R(s16vec3); R(s16vec4); R(u16vec2); R(u16vec3);
}
#elif PART == 2
void part2(Mon& m) {
	R(u16vec4); R(s32vec2); R(s32vec3); R(s32vec4); R(u32vec2); R(u32vec3); R(u32vec4); R(dvec2); R(dvec3); R(dvec4); R(fquat);
}
#elif PART == 3
void part3(Mon& m) {
	R(dquat); R(fmat2x2); R(fmat3x3); R(fmat4x4); R(dmat4x4);
	using imat3 = mat<std::int16_t, 3, 3>; using bmat2 = mat<std::uint8_t, 2, 2>; R(imat3); R(bmat2);
	R(RowMat3); R(RowMat2); R(NonTrivial); R(PlainVec4); R(ByteQuad);
}
#elif PART == 4
void part4(Mon& m) {
#if __has_include(<glm/glm.hpp>)
	R(glm::vec2); R(glm::vec3); R(glm::vec4); R(glm::i8vec2); R(glm::i8vec3); R(glm::i8vec4); R(glm::u8vec2); R(glm::u8vec3); R(glm::u8vec4); R(glm::i16vec2); R(glm::i16vec3); R(glm::i16vec4);
	R(glm::u16vec2); R(glm::u16vec3); R(glm::u16vec4); R(glm::u32vec2); R(glm::u32vec3); R(glm::u32vec4); R(glm::mat2); R(glm::mat3); R(glm::mat4);
#endif
}
#else
void part5(Mon& m) {
	using namespace DirectX; using namespace DirectX::PackedVector;
	R(XMFLOAT2); R(XMFLOAT3); R(XMFLOAT4); R(XMBYTE2); R(XMBYTE4); R(XMUBYTE2); R(XMUBYTE4); R(XMSHORT2); R(XMSHORT4); R(XMUSHORT2); R(XMUSHORT4); R(XMUINT2); R(XMUINT3); R(XMUINT4); R(XMFLOAT3X3); R(XMFLOAT4X4);
}
#endif
