// C25: the math types against textbook definitions computed in long double on plain arrays.
#include "mon.hpp"
#include <cmath>
#include <limits>
#include <type_traits>
#include <fastgltf/math.hpp>
namespace fg = fastgltf; namespace fm = fastgltf::math;
using ld = long double;
static Mon* M_;
template <typename T> ld eps() { return std::is_floating_point_v<T> ? static_cast<ld>(std::numeric_limits<T>::epsilon()) : 0; }
static std::string fmt(ld v) { char b[48]; std::snprintf(b, sizeof b, "%.12Lg", v); return b; }
template <typename T> const char* tn() { if constexpr (std::is_same_v<T, float>) return "float"; else if constexpr (std::is_same_v<T, double>) return "double"; else if constexpr (sizeof(T) == 1) return std::is_signed_v<T> ? "i8" : "u8"; else if constexpr (sizeof(T) == 2) return std::is_signed_v<T> ? "i16" : "u16"; else if constexpr (sizeof(T) == 4) return std::is_signed_v<T> ? "i32" : "u32"; else return std::is_signed_v<T> ? "i64" : "u64"; }
template <typename T> void near(const std::string& key, T got, ld want, ld scale, ld ulps = 16) {
	M_->count("scalars_compared");
	ld tol = eps<T>() * ulps * std::max(std::abs(scale), std::abs(want));
	ld d = std::abs(static_cast<ld>(got) - want);
	if (!(d <= tol)) M_->viol(key + "/" + tn<T>(), "got " + fmt(got) + " must be " + fmt(want) + " (tolerance " + fmt(tol) + ")");
}
template <typename T> T rnd(Rng& r) {
	if constexpr (std::is_floating_point_v<T>) {
		switch (r.below(6)) { case 0: return static_cast<T>(r.range(-3, 3)); case 1: return static_cast<T>(r.uni(-1, 1)); case 2: return static_cast<T>(r.uni(-1e4, 1e4)); case 3: return static_cast<T>(r.uni(-1e-4, 1e-4)); default: return static_cast<T>(r.uni(-10, 10)); }
	} else {   // keep products representable, as arithmetic on the wider mathematical integers would give
		if constexpr (sizeof(T) == 1) return static_cast<T>(std::is_signed_v<T> ? r.range(-11, 11) : r.range(0, 15));
		else return static_cast<T>(std::is_signed_v<T> ? r.range(-180, 180) : r.range(0, 255));
	}
}
template <typename T> T nz(Rng& r) { for (;;) { T v = rnd<T>(r); if (std::is_floating_point_v<T> ? std::abs(static_cast<ld>(v)) > 1e-6L : v != T(0)) return v; } }

template <typename T, std::size_t N, std::size_t... I> fm::vec<T, N> mk(const T* a, std::index_sequence<I...>) { return fm::vec<T, N>(a[I]...); }
template <typename T, std::size_t N> fm::vec<T, N> mkv(const T* a) { return mk<T, N>(a, std::make_index_sequence<N>{}); }

template <typename T, std::size_t N, std::size_t K> void convSize(const T* a) {
	fm::vec<T, N> v = mkv<T, N>(a); std::string p = "vec" + std::to_string(N) + "-to-vec" + std::to_string(K);
	fm::vec<T, K> w(v); for (std::size_t i = 0; i < K; ++i) near<T>(p, w[i], i < N ? static_cast<ld>(a[i]) : 0, 0);
	fm::vec<T, K> u(T(77)); u = v; for (std::size_t i = 0; i < K; ++i) near<T>(p + "-assign", u[i], i < N ? static_cast<ld>(a[i]) : 0, 0);
}
template <typename T, std::size_t N, typename U> void convType(const T* a) {
	T f[4]; for (std::size_t i = 0; i < 4; ++i) { f[i] = a[i]; if constexpr (std::is_integral_v<U>) { ld lo = static_cast<ld>(std::numeric_limits<U>::min()), hi = static_cast<ld>(std::numeric_limits<U>::max()), x = static_cast<ld>(f[i]); if (x < lo || x > hi) f[i] = T(1); } } a = f;
	fm::vec<T, N> v = mkv<T, N>(a); std::string p = std::string("vec-to-") + tn<U>();
	fm::vec<U, N> w(v); fm::vec<U, N> u; u = v;
	for (std::size_t i = 0; i < N; ++i) {
		near<U>(p, w[i], static_cast<ld>(static_cast<U>(a[i])), 0); near<U>(p + "-assign", u[i], static_cast<ld>(static_cast<U>(a[i])), 0);
	}
}
template <typename T, std::size_t N> void vecs(Rng& r) {
	std::string V = "vec" + std::to_string(N) + ".";
	T a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = rnd<T>(r); b[i] = rnd<T>(r); if (r.chance(1, 5)) b[i] = a[i]; }
	T s = rnd<T>(r);
	using X = fm::vec<T, N>;
	X va = mkv<T, N>(a), vb = mkv<T, N>(b); const X& ca = va;
	auto all = [&](const char* what, const X& got, auto f, ld ulps = 2) { for (std::size_t i = 0; i < N; ++i) { near<T>(V + what, got[i], f(i), 0, ulps); } };
	X zero; all("default", zero, [&](int) { return ld(0); });
	X fill(s); all("fill", fill, [&](int) { return ld(s); });
	all("components", va, [&](int i) { return ld(a[i]); });
	T copy[4]; std::memcpy(copy, a, sizeof a); all("fromPointer", X::fromPointer(copy), [&](int i) { return ld(a[i]); });
	X cp(va); all("copy", cp, [&](int i) { return ld(a[i]); }); cp = vb; all("assign", cp, [&](int i) { return ld(b[i]); });
	if constexpr (N == 2) { X l{ a[0], a[1] }; all("list", l, [&](int i) { return ld(a[i]); }); l = { b[0], b[1] }; all("list-assign", l, [&](int i) { return ld(b[i]); }); }
	if constexpr (N == 3) { X l{ a[0], a[1], a[2] }; all("list", l, [&](int i) { return ld(a[i]); }); l = { b[0], b[1], b[2] }; all("list-assign", l, [&](int i) { return ld(b[i]); }); X part{ a[0], a[1] }; all("list-short", part, [&](int i) { return i < 2 ? ld(a[i]) : 0; }); }
	if constexpr (N == 4) { X l{ a[0], a[1], a[2], a[3] }; all("list", l, [&](int i) { return ld(a[i]); }); l = { b[0], b[1], b[2], b[3] }; all("list-assign", l, [&](int i) { return ld(b[i]); }); X part{ a[0] }; all("list-short", part, [&](int i) { return i < 1 ? ld(a[i]) : 0; }); }
	if (va.size() != N || va.size_bytes() != N * sizeof(T) || sizeof(X) != N * sizeof(T)) M_->viol(V + "size", "wrong size");
	near<T>(V + "x", ca.x(), a[0], 0); near<T>(V + "y", ca.y(), a[1], 0); X wr; wr.x() = a[0]; wr.y() = a[1];
	if constexpr (N >= 3) { near<T>(V + "z", ca.z(), a[2], 0); wr.z() = a[2]; }
	if constexpr (N >= 4) { near<T>(V + "w", ca.w(), a[3], 0); wr.w() = a[3]; }
	all("write", wr, [&](int i) { return ld(a[i]); });
	for (std::size_t i = 0; i < N; ++i) { near<T>(V + "data", ca.data()[i], a[i], 0); X t; t[i] = s; for (std::size_t j = 0; j < N; ++j) near<T>(V + "index-write", t[j], i == j ? ld(s) : 0, 0); va.data()[i] = a[i]; }
	bool same = true; for (std::size_t i = 0; i < N; ++i) same = same && a[i] == b[i];
	if ((va == vb) != same || (va != vb) == same || !(va == X(va))) M_->viol(V + "equality", "wrong");
	for (std::size_t i = 0; i < N; ++i) { X t(va); t[i] = static_cast<T>(t[i] + T(1)); if (std::is_floating_point_v<T> && t[i] == a[i]) continue; if (t == va || !(t != va)) M_->viol(V + "equality", "differs only in component " + std::to_string(i)); }
	if constexpr (std::is_floating_point_v<T> || sizeof(T) >= 4) {
		all("mul-scalar", va * s, [&](int i) { return ld(a[i]) * ld(s); }); all("mul", va * vb, [&](int i) { return ld(a[i]) * ld(b[i]); });
		all("add-scalar", va + s, [&](int i) { return ld(static_cast<T>(a[i] + s)); }); all("add", va + vb, [&](int i) { return ld(static_cast<T>(a[i] + b[i])); });
		all("sub-scalar", va - s, [&](int i) { return ld(static_cast<T>(a[i] - s)); }); all("sub", va - vb, [&](int i) { return ld(static_cast<T>(a[i] - b[i])); });
		X x = va; x *= s; all("mul-scalar=", x, [&](int i) { return ld(a[i]) * ld(s); }); x = va; x *= vb; all("mul=", x, [&](int i) { return ld(a[i]) * ld(b[i]); });
		x = va; x += s; all("add-scalar=", x, [&](int i) { return ld(static_cast<T>(a[i] + s)); }); x = va; x += vb; all("add=", x, [&](int i) { return ld(static_cast<T>(a[i] + b[i])); });
		x = va; x -= s; all("sub-scalar=", x, [&](int i) { return ld(static_cast<T>(a[i] - s)); }); x = va; x -= vb; all("sub=", x, [&](int i) { return ld(static_cast<T>(a[i] - b[i])); });
		T d[4]; for (auto& q : d) q = nz<T>(r); X vd = mkv<T, N>(d); T sd = nz<T>(r);
		auto div = [&](T p, T q) { return std::is_floating_point_v<T> ? ld(p) / ld(q) : ld(static_cast<T>(p / q)); };
		all("div-scalar", va / sd, [&](int i) { return div(a[i], sd); }); all("div", va / vd, [&](int i) { return div(a[i], d[i]); });
		x = va; x /= sd; all("div-scalar=", x, [&](int i) { return div(a[i], sd); }); x = va; x /= vd; all("div=", x, [&](int i) { return div(a[i], d[i]); });
		all("operand-kept", va, [&](int i) { return ld(a[i]); });
		all("plus", +va, [&](int i) { return ld(a[i]); }); if constexpr (std::is_signed_v<T>) all("minus", -va, [&](int i) { return -ld(a[i]); });
		x = va; ++x; all("++x", x, [&](int i) { return ld(static_cast<T>(a[i] + T(1))); }); x = va; --x; all("--x", x, [&](int i) { return ld(static_cast<T>(a[i] - T(1))); });
		x = va; X y = x++; all("x++", x, [&](int i) { return ld(static_cast<T>(a[i] + T(1))); }); all("x++old", y, [&](int i) { return ld(a[i]); });
		x = va; y = x--; all("x--", x, [&](int i) { return ld(static_cast<T>(a[i] - T(1))); }); all("x--old", y, [&](int i) { return ld(a[i]); });
		ld sm = 0, ab = 0, dt = 0, dab = 0; for (std::size_t i = 0; i < N; ++i) { sm += a[i]; ab += std::abs(ld(a[i])); dt += ld(a[i]) * b[i]; dab += std::abs(ld(a[i]) * b[i]); }
		near<T>(V + "sum", fm::sum(va), sm, ab); near<T>(V + "dot", fm::dot(va, vb), dt, dab);
		if constexpr (N == 3) if (std::is_signed_v<T>) { X c = fm::cross(va, vb); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; near<T>(V + "cross", c[i], ld(a[j]) * b[k] - ld(a[k]) * b[j], std::abs(ld(a[j]) * b[k]) + std::abs(ld(a[k]) * b[j])); } }
		T lo = rnd<T>(r), hi = rnd<T>(r); if (hi < lo) std::swap(lo, hi);
		all("clamp", fm::clamp(va, lo, hi), [&](int i) { return ld(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); }, 0);
	}
	if constexpr (std::is_floating_point_v<T>) {
		ld q = 0; for (std::size_t i = 0; i < N; ++i) q += ld(a[i]) * a[i]; ld len = std::sqrt(q);
		near<T>(V + "length", fm::length(va), len, 0); if (len > 1e-4L) all("normalize", fm::normalize(va), [&](int i) { return ld(a[i]) / len; }, 32);
		T t = static_cast<T>(r.unit()); X l = fm::lerp(va, vb, t); for (std::size_t i = 0; i < N; ++i) near<T>(V + "lerp", l[i], ld(a[i]) + ld(t) * (ld(b[i]) - ld(a[i])), std::abs(ld(a[i])) + std::abs(ld(b[i])));
		near<T>("radians", fm::radians(a[0]), ld(a[0]) * 3.14159265358979323846L / 180, 0); near<T>("degrees", fm::degrees(a[0]), ld(a[0]) / 3.14159265358979323846L * 180, 0);
		near<T>("lerp", fm::lerp(a[0], b[0], t), ld(a[0]) + ld(t) * (ld(b[0]) - ld(a[0])), std::abs(ld(a[0])) + std::abs(ld(b[0]))); 
	}
	if constexpr (N != 2) convSize<T, N, 2>(a); if constexpr (N != 3) convSize<T, N, 3>(a); if constexpr (N != 4) convSize<T, N, 4>(a);
	if constexpr (!std::is_same_v<T, float>) convType<T, N, float>(a); if constexpr (!std::is_same_v<T, double>) convType<T, N, double>(a); if constexpr (!std::is_same_v<T, std::int32_t>) convType<T, N, std::int32_t>(a);
	if constexpr (!std::is_same_v<T, std::uint8_t>) convType<T, N, std::uint8_t>(a); if constexpr (!std::is_same_v<T, std::int16_t>) convType<T, N, std::int16_t>(a); if constexpr (!std::is_same_v<T, std::uint64_t>) convType<T, N, std::uint64_t>(a);
	M_->seenBytes(a, sizeof(T) * N, N); M_->count(V + tn<T>());
}

// reference matrix: e[r][c]
struct Ref { int n, m; ld e[4][4]{}; };
template <typename T, std::size_t N, std::size_t C> Ref toRef(const fm::mat<T, N, C>& m) { Ref r{ N, C }; for (std::size_t c = 0; c < C; ++c) for (std::size_t i = 0; i < N; ++i) r.e[i][c] = m.col(c)[i]; return r; }
template <typename T, std::size_t N, std::size_t C> fm::mat<T, N, C> rndMat(Rng& r) { fm::mat<T, N, C> m; for (std::size_t c = 0; c < C; ++c) for (std::size_t i = 0; i < N; ++i) m.col(c)[i] = rnd<T>(r); return m; }
template <typename T, std::size_t N, std::size_t C, std::size_t... I> fm::mat<T, N, C> scal(const T* a, std::index_sequence<I...>) { return fm::mat<T, N, C>(a[I]...); }
template <typename T, std::size_t N, std::size_t C, std::size_t... I> fm::mat<T, N, C> colsCtor(const T* a, std::index_sequence<I...>) { return fm::mat<T, N, C>(mkv<T, N>(a + I * N)...); }
template <typename T, std::size_t N, std::size_t C, std::size_t K> void product(Rng& r) {
	auto a = rndMat<T, N, C>(r); auto b = rndMat<T, C, K>(r); auto p = a * b;
	static_assert(std::is_same_v<decltype(p), fm::mat<T, N, K>>, "product shape");
	for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < K; ++j) { ld s = 0, q = 0; for (std::size_t k = 0; k < C; ++k) { s += ld(a.col(k)[i]) * b.col(j)[k]; q += std::abs(ld(a.col(k)[i]) * b.col(j)[k]); } near<T>("mat.product" + std::to_string(N) + std::to_string(C) + std::to_string(K), p.col(j)[i], s, q); }
}
template <typename T, std::size_t N, std::size_t C, std::size_t Q, std::size_t P> void resize(Rng& r) {
	if constexpr ((N < Q && C < P) || (Q < N && P < C)) {
		auto m = rndMat<T, N, C>(r); fm::mat<T, Q, P> o(m);
		for (std::size_t c = 0; c < P; ++c) for (std::size_t i = 0; i < Q; ++i) near<T>("mat" + std::to_string(N) + std::to_string(C) + "-to-" + std::to_string(Q) + std::to_string(P), o.col(c)[i], i < N && c < C ? ld(m.col(c)[i]) : i == c ? 1 : 0, 0);
	}
}
template <typename T, std::size_t N, std::size_t C> void mats(Rng& r) {
	std::string P = "mat" + std::to_string(N) + "x" + std::to_string(C) + ".";
	using X = fm::mat<T, N, C>;
	T a[16]; for (auto& v : a) v = rnd<T>(r); T s = nz<T>(r);
	auto all = [&](const char* what, const X& got, auto f, ld ulps = 2) { for (std::size_t c = 0; c < C; ++c) for (std::size_t i = 0; i < N; ++i) near<T>(P + what, got.col(c)[i], f(i, c), 0, ulps); };
	all("identity", X(), [&](int i, int c) { return ld(i == c); }); all("diagonal", X(s), [&](int i, int c) { return i == c ? ld(s) : 0; });
	X m = scal<T, N, C>(a, std::make_index_sequence<N * C>{}); all("scalars", m, [&](int i, int c) { return ld(a[c * N + i]); });
	X k = colsCtor<T, N, C>(a, std::make_index_sequence<C>{}); all("columns", k, [&](int i, int c) { return ld(a[c * N + i]); });
	m = k; const X& cm = m; X cp(m); all("copy", cp, [&](int i, int c) { return ld(a[c * N + i]); });
	if (m.rows() != N || m.columns() != C || m.size() != N * C || m.size_bytes() != N * C * sizeof(T)) M_->viol(P + "size", "wrong");
	for (std::size_t c = 0; c < C; ++c) for (std::size_t i = 0; i < N; ++i) {
		near<T>(P + "index", cm[c][i], a[c * N + i], 0); auto row = cm.row(i); static_assert(std::is_same_v<decltype(row), fm::vec<T, C>>); near<T>(P + "row", row[c], a[c * N + i], 0); near<T>(P + "data", cm.data()[c * N + i], a[c * N + i], 0);
		X t(m); t[c][i] = s; for (std::size_t c2 = 0; c2 < C; ++c2) for (std::size_t i2 = 0; i2 < N; ++i2) near<T>(P + "write", t.col(c2)[i2], c == c2 && i == i2 ? ld(s) : ld(a[c2 * N + i2]), 0);
		X d(m); d.col(c)[i] = static_cast<T>(d.col(c)[i] + T(1)); if (d.col(c)[i] != a[c * N + i] && (d == m || !(d != m) || m == d)) M_->viol(P + "equality", "matrices that differ only in column " + std::to_string(c) + " row " + std::to_string(i) + " compare equal");
	}
	if (!(m == cp) || m != cp) M_->viol(P + "equality", "equal matrices compare different");
	all("negate", -m, [&](int i, int c) { return -ld(a[c * N + i]); }); all("mul-scalar", m * s, [&](int i, int c) { return ld(a[c * N + i]) * s; }); all("div-scalar", m / s, [&](int i, int c) { return ld(a[c * N + i]) / s; });
	{ T b[4]; for (auto& v : b) v = rnd<T>(r); auto v = mkv<T, C>(b); auto w = m * v; static_assert(std::is_same_v<decltype(w), fm::vec<T, N>>, "matrix times vector has one entry per row");
	  for (std::size_t i = 0; i < N; ++i) { ld q = 0, z = 0; for (std::size_t c = 0; c < C; ++c) { q += ld(a[c * N + i]) * b[c]; z += std::abs(ld(a[c * N + i]) * b[c]); } near<T>(P + "mul-vec", w[i], q, z); } }
	{ auto t = fm::transpose(m); static_assert(std::is_same_v<decltype(t), fm::mat<T, C, N>>); for (std::size_t c = 0; c < C; ++c) for (std::size_t i = 0; i < N; ++i) near<T>(P + "transpose", t.col(i)[c], a[c * N + i], 0); if (!(fm::transpose(t) == m)) M_->viol(P + "transpose", "twice is not the identity"); }
	product<T, N, C, 2>(r); product<T, N, C, 3>(r); product<T, N, C, 4>(r);
	resize<T, N, C, 2, 2>(r); resize<T, N, C, 2, 3>(r); resize<T, N, C, 3, 2>(r); resize<T, N, C, 3, 3>(r); resize<T, N, C, 3, 4>(r); resize<T, N, C, 4, 3>(r); resize<T, N, C, 4, 4>(r); resize<T, N, C, 2, 4>(r); resize<T, N, C, 4, 2>(r);
	M_->seenBytes(a, sizeof(T) * N * C, N * 8 + C); M_->count(P + tn<T>());
}
static ld refDet(const ld e[4][4], int n, ld* mag = nullptr) {
	if (n == 1) { if (mag) *mag = std::abs(e[0][0]); return e[0][0]; }
	ld d = 0, mg = 0; for (int c = 0; c < n; ++c) { ld s[4][4]; for (int i = 1; i < n; ++i) for (int j = 0, q = 0; j < n; ++j) if (j != c) s[i - 1][q++] = e[i][j]; ld sm; ld sub = refDet(s, n - 1, &sm); d += (c % 2 ? -1 : 1) * e[0][c] * sub; mg += std::abs(e[0][c]) * sm; }
	if (mag) *mag = mg; return d;
}
// inverse by cofactors with the magnitude of every sum, so the tolerance follows the conditioning
template <typename T, std::size_t N> void square(Rng& r) {
	std::string P = "mat" + std::to_string(N) + ".";
	auto m = rndMat<T, N, N>(r);
	int kind = static_cast<int>(r.below(5));
	if (kind == 0) m = fm::mat<T, N, N>(nz<T>(r)); 
	if (kind == 1) { for (std::size_t c = 0; c < N; ++c) for (std::size_t i = 0; i < N; ++i) m.col(c)[i] = static_cast<T>(r.range(-3, 3)); }
	Ref R = toRef(m); ld mag; ld det = refDet(R.e, N, &mag);
	near<T>(P + "determinant", fm::determinant(m), det, mag, 32);
	if (std::abs(det) > mag * eps<T>() * 1000 && std::abs(det) > 1e-12L && std::abs(det) < 1e15L) {
		auto inv = fm::inverse(m); ld relDet = mag / std::abs(det);
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) {   // inv[i][j] = cofactor(j,i)/det
			ld s[4][4]; for (std::size_t a = 0, p = 0; a < N; ++a) if (a != j) { for (std::size_t b = 0, q = 0; b < N; ++b) if (b != i) s[p][q++] = R.e[a][b]; ++p; }
			ld sm; ld cof = refDet(s, N - 1, &sm) * ((i + j) % 2 ? -1 : 1);
			near<T>(P + "inverse", inv.col(j)[i], cof / det, sm / std::abs(det) * (1 + relDet), 64);
		}
		M_->count("inverses");
	}
	if constexpr (N == 4) {
		auto a = m; for (int c = 0; c < 3; ++c) a.col(c)[3] = T(0); a.col(3)[3] = T(1);
		Ref A = toRef(a); ld mg; ld d3 = refDet(A.e, 3, &mg);
		if (std::abs(d3) > mg * eps<T>() * 1000 && std::abs(d3) > 1e-12L && std::abs(d3) < 1e15L) {
			auto inv = fm::affineInverse(a); Ref I = toRef(inv); ld rel = mg / std::abs(d3), bound = 0;
			ld w[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld s[4][4]; for (int p = 0, x = 0; p < 3; ++p) if (p != j) { for (int q = 0, y = 0; q < 3; ++q) if (q != i) s[x][y++] = A.e[p][q]; ++x; } ld sm; w[i][j] = refDet(s, 2, &sm) * ((i + j) % 2 ? -1 : 1) / d3; near<T>("affineInverse", I.e[i][j], w[i][j], sm / std::abs(d3) * (1 + rel), 64); bound = std::max(bound, sm / std::abs(d3) * (1 + rel)); }
			for (int i = 0; i < 3; ++i) { ld t = 0, z = 0; for (int j = 0; j < 3; ++j) { t -= w[i][j] * A.e[j][3]; z += bound * std::abs(A.e[j][3]); } near<T>("affineInverse.translation", static_cast<T>(I.e[i][3]), t, z, 128); near<T>("affineInverse.row", static_cast<T>(I.e[3][i]), 0, 0); }
			near<T>("affineInverse.row", static_cast<T>(I.e[3][3]), 1, 0); M_->count("affineInverses");
		}
	}
	M_->count(P + "square");
}
template <typename T> void quatUnit(Rng& r, ld q[4]) {
	int kind = static_cast<int>(r.below(6));
	static const ld H = 0.70710678118654752440L;
	if (kind == 0) { ld z[4] = { 0, 0, 0, 0 }; z[r.below(4)] = r.chance(1, 2) ? 1 : -1; std::memcpy(q, z, sizeof z); return; }
	if (kind == 1) { ld z[4] = { 0, 0, 0, 0 }; int i = static_cast<int>(r.below(4)), j = (i + 1 + static_cast<int>(r.below(3))) % 4; z[i] = r.chance(1, 2) ? H : -H; z[j] = r.chance(1, 2) ? H : -H; std::memcpy(q, z, sizeof z); return; }
	for (;;) { ld n = 0; for (int i = 0; i < 4; ++i) { q[i] = r.uni(-1, 1); n += q[i] * q[i]; } if (n < 0.01L || n > 1) continue; n = std::sqrt(n); for (int i = 0; i < 4; ++i) q[i] /= n; return; }
}
template <typename T> void quats(Rng& r) {
	using Q = fm::quat<T>; ld ua[4], ub[4]; quatUnit<T>(r, ua); quatUnit<T>(r, ub);
	T a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = static_cast<T>(ua[i]); b[i] = static_cast<T>(ub[i]); }
	Q qa(a[0], a[1], a[2], a[3]), qb(b[0], b[1], b[2], b[3]); const Q& cq = qa;
	auto all = [&](const char* what, const Q& got, auto f, ld ulps = 4) { for (int i = 0; i < 4; ++i) near<T>(std::string("quat.") + what, got[i], f(i), 0, ulps); };
	all("default", Q(), [](int i) { return ld(i == 3); }); all("components", qa, [&](int i) { return ld(a[i]); });
	near<T>("quat.x", cq.x(), a[0], 0); near<T>("quat.y", cq.y(), a[1], 0); near<T>("quat.z", cq.z(), a[2], 0); near<T>("quat.w", cq.w(), a[3], 0);
	Q w; w.x() = a[0]; w.y() = a[1]; w.z() = a[2]; w.w() = a[3]; all("write", w, [&](int i) { return ld(a[i]); }); for (int i = 0; i < 4; ++i) { w[i] = b[i]; near<T>("quat.data", w.data()[i], b[i], 0); }
	T buf[4] = { a[0], a[1], a[2], a[3] }; all("fromPointer", Q::fromPointer(buf), [&](int i) { return ld(a[i]); });
	if (qa.size() != 4 || qa.size_bytes() != 4 * sizeof(T)) M_->viol("quat.size", "wrong");
	bool same = !std::memcmp(a, b, sizeof a); bool veq = true; for (int i = 0; i < 4; ++i) veq = veq && a[i] == b[i]; (void)same;
	if ((qa == qb) != veq || (qa != qb) == veq) M_->viol("quat.equality", "wrong"); for (int i = 0; i < 4; ++i) { Q t(qa); t[i] += T(1); if (t == qa || !(t != qa)) M_->viol("quat.equality", "differs only in component " + std::to_string(i)); }
	T s = nz<T>(r);
	all("mul-scalar", qa * s, [&](int i) { return ld(a[i]) * s; }); all("div-scalar", qa / s, [&](int i) { return ld(a[i]) / s; });
	Q x = qa; x *= s; all("mul-scalar=", x, [&](int i) { return ld(a[i]) * s; }); x = qa; x /= s; all("div-scalar=", x, [&](int i) { return ld(a[i]) / s; });
	for (int i = 0; i < 4; ++i) { near<T>("quat.add", (qa + qb)[i], ld(a[i]) + b[i], 1, 4); near<T>("quat.sub", (qa - qb)[i], ld(a[i]) - b[i], 1, 4); }
	x = qa; x += qb; for (int i = 0; i < 4; ++i) near<T>("quat.add=", x[i], ld(a[i]) + b[i], 1, 4); x = qa; x -= qb; for (int i = 0; i < 4; ++i) near<T>("quat.sub=", x[i], ld(a[i]) - b[i], 1, 4);
	all("plus", +qa, [&](int i) { return ld(a[i]); }); all("minus", -qa, [&](int i) { return -ld(a[i]); });
	ld d = 0; for (int i = 0; i < 4; ++i) d += ld(a[i]) * b[i]; near<T>("quat.dot", fm::dot(qa, qb), d, 1);
	{ T c[4]; ld n = 0; for (int i = 0; i < 4; ++i) { c[i] = nz<T>(r); n += ld(c[i]) * c[i]; } n = std::sqrt(n); Q nq = fm::normalize(Q(c[0], c[1], c[2], c[3])); for (int i = 0; i < 4; ++i) near<T>("quat.normalize", nq[i], ld(c[i]) / n, 1, 16); }
	// rotation matrix: columns are the images q e q* of the axes
	{ auto m = fm::asMatrix(qa); auto mul = [](const ld p[4], const ld q[4], ld o[4]) { o[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1]; o[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0]; o[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3]; o[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2]; };
	  ld q[4] = { ld(a[0]), ld(a[1]), ld(a[2]), ld(a[3]) }, c[4] = { -q[0], -q[1], -q[2], q[3] };
	  for (int k = 0; k < 3; ++k) { ld e[4] = { 0, 0, 0, 0 }, t[4], o[4]; e[k] = 1; mul(q, e, t); mul(t, c, o); for (int i = 0; i < 3; ++i) near<T>("quat.asMatrix", m.col(k)[i], o[i], 1, 16); }
	  // a 4x4 matrix rotated by q
	  auto b4 = rndMat<T, 4, 4>(r); auto rot = fm::rotate(b4, qa); for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) { ld z = 0, y = 0; for (int j = 0; j < 4; ++j) { ld rj = j < 3 && k < 3 ? ld(m.col(k)[j]) : ld(j == k); z += ld(b4.col(j)[i]) * rj; y += std::abs(ld(b4.col(j)[i])); } near<T>("rotate", rot.col(k)[i], z, y); }
	  T v[3] = { rnd<T>(r), rnd<T>(r), rnd<T>(r) }; auto tr = fm::translate(b4, mkv<T, 3>(v)); auto sc = fm::scale(b4, mkv<T, 3>(v));
	  for (int i = 0; i < 4; ++i) { ld z = b4.col(3)[i], y = std::abs(ld(b4.col(3)[i])); for (int j = 0; j < 3; ++j) { z += ld(b4.col(j)[i]) * v[j]; y += std::abs(ld(b4.col(j)[i]) * v[j]); near<T>("translate", tr.col(j)[i], b4.col(j)[i], 0); near<T>("scale", sc.col(j)[i], ld(b4.col(j)[i]) * v[j], 0); } near<T>("translate", tr.col(3)[i], z, y); near<T>("scale", sc.col(3)[i], b4.col(3)[i], 0); } }
	// slerp: constant angular speed on the shorter arc
	{ if (r.chance(1, 4)) { ld n = 0; for (int i = 0; i < 4; ++i) { ub[i] = ua[i] + r.uni(-0.02, 0.02); n += ub[i] * ub[i]; } n = std::sqrt(n); if (r.chance(1, 2)) n = -n; for (int i = 0; i < 4; ++i) b[i] = static_cast<T>(ub[i] / n); qb = Q(b[0], b[1], b[2], b[3]); }
	  T t = r.chance(1, 4) ? T(r.below(2)) : static_cast<T>(r.unit()); ld na = 0, nb = 0, dd = 0; for (int i = 0; i < 4; ++i) { na += ld(a[i]) * a[i]; nb += ld(b[i]) * b[i]; dd += ld(a[i]) * b[i]; } dd /= std::sqrt(na * nb);
	  if (std::abs(dd) > 1e-3L) { ld sg = dd < 0 ? -1 : 1, th = std::acos(std::min<ld>(1, std::abs(dd))), got[4], want[4]; Q o = fm::slerp(qa, qb, t);
	    for (int i = 0; i < 4; ++i) { ld p = a[i] / std::sqrt(na), q = sg * b[i] / std::sqrt(nb); want[i] = th < 1e-9L ? p : (std::sin((1 - ld(t)) * th) * p + std::sin(ld(t) * th) * q) / std::sin(th); got[i] = o[i]; }
	    ld e1 = 0, e2 = 0; for (int i = 0; i < 4; ++i) { e1 = std::max(e1, std::abs(got[i] - want[i])); e2 = std::max(e2, std::abs(got[i] + want[i])); }
	    ld tol = (sizeof(T) == 4 ? 3e-5L : 3e-5L); if (std::abs(dd) <= 0.9995L) tol = sizeof(T) == 4 ? 2e-5L : 1e-12L;
	    M_->count(std::abs(dd) > 0.9995L ? "slerp_near" : "slerp_far"); if (std::min(e1, e2) > tol) M_->viol(std::string("quat.slerp/") + tn<T>(), "dot=" + fmt(dd) + " t=" + fmt(t) + ": off by " + fmt(std::min(e1, e2))); } }
	M_->seenBytes(a, sizeof a, 99);
}
int main(int argc, char** argv) {
	Mon m(argc, argv); M_ = &m;
	const long q = 600, th = 20000;
	#define V(T) m.run("vec_" #T, m.scale(q, th), [](Rng& r, long) { vecs<T, 2>(r); vecs<T, 3>(r); vecs<T, 4>(r); })
	using u8 = std::uint8_t; using i8 = std::int8_t; using i16 = std::int16_t; using u16 = std::uint16_t; using i32 = std::int32_t; using u32 = std::uint32_t; using i64 = std::int64_t; using u64 = std::uint64_t;
	V(float); V(double); V(i32); V(u32); V(i64); V(u64); V(i8); V(u8); V(i16); V(u16);
	#define T2(T) m.run("mat_" #T, m.scale(q, th), [](Rng& r, long) { mats<T, 2, 2>(r); mats<T, 2, 3>(r); mats<T, 2, 4>(r); mats<T, 3, 2>(r); mats<T, 3, 3>(r); mats<T, 3, 4>(r); mats<T, 4, 2>(r); mats<T, 4, 3>(r); mats<T, 4, 4>(r); })
	T2(float); T2(double);
	m.run("square_float", m.scale(6000, 200000), [](Rng& r, long) { square<float, 2>(r); square<float, 3>(r); square<float, 4>(r); });
	m.run("square_double", m.scale(6000, 200000), [](Rng& r, long) { square<double, 2>(r); square<double, 3>(r); square<double, 4>(r); });
	m.run("quat_float", m.scale(6000, 200000), [](Rng& r, long) { quats<float>(r); });
	m.run("quat_double", m.scale(6000, 200000), [](Rng& r, long) { quats<double>(r); });
	return m.done();
}
