// C28: accessor bounds storage, updates, moves, and parse/export precision.
#include "mon.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>
#include <fastgltf/tools.hpp>
#include <cmath>
#include <limits>
#include <optional>
using namespace fastgltf;
using BA = AccessorBoundsArray;
static Mon* M;
template <typename T> std::uint64_t bits(T v) { std::uint64_t b = 0; std::memcpy(&b, &v, sizeof v); return b; }
template <typename T> T gnum(Rng& r) {
	if constexpr (std::is_same_v<T, double>) {
		switch (r.below(9)) {
			case 0: return 0; case 1: return -0.0; case 2: return r.uni(-1, 1); case 3: return std::ldexp(r.uni(-1, 1), static_cast<int>(r.range(-200, 200)));
			case 4: return std::numeric_limits<double>::max() * (r.chance(1, 2) ? 1 : -1); case 5: return static_cast<float>(r.uni(-100, 100));
			case 6: return static_cast<double>(r.range(-5, 5)); case 7: return 9007199254740993.0 + static_cast<double>(r.below(9)); default: return r.uni(-1e6, 1e6);
		}
	} else {
		switch (r.below(7)) {
			case 0: return 0; case 1: return std::numeric_limits<std::int64_t>::max() - static_cast<std::int64_t>(r.below(3)); case 2: return std::numeric_limits<std::int64_t>::min() + static_cast<std::int64_t>(r.below(3));
			case 3: return r.range(-128, 255); case 4: return r.range(-5, 5); case 5: return (std::int64_t(1) << 53) + 1 + static_cast<std::int64_t>(r.below(4)); default: return r.range(-2147483648LL, 4294967295LL);
		}
	}
}
template <typename T> constexpr const char* tn() { return std::is_same_v<T, double> ? "double" : "int64"; }
#define V(key, det) M->viol(std::string(key) + ":" + tn<T>(), det)
template <typename T> bool same(const BA& b, const std::vector<T>& m) {
	if (b.size() != m.size() || !b.isType<T>()) return false;
	if (b.type() != (std::is_same_v<T, double> ? BA::BoundsType::float64 : BA::BoundsType::int64)) return false;
	using U = std::conditional_t<std::is_same_v<T, double>, std::int64_t, double>; if (b.isType<U>()) return false;
	for (std::size_t i = 0; i < m.size(); ++i) if (bits(b.get<T>(i)) != bits(m[i]) || bits(b.data<T>()[i]) != bits(m[i])) return false;
	return true;
}
template <typename T> BA make(Rng& r, std::vector<T>& m) {
	std::size_t n = r.pick(std::vector<std::size_t>{1, 2, 3, 4, 9, 16, static_cast<std::size_t>(r.below(40)) + 1});
	BA b = r.chance(1, 2) ? BA::ForType<T>(n) : BA(n, std::is_same_v<T, double> ? BA::BoundsType::float64 : BA::BoundsType::int64);
	m.assign(n, T(0)); if (!same(b, m)) V("fresh", "a new array is not zero-initialised with the requested size and type");
	for (std::size_t i = 0; i < n; ++i) { m[i] = gnum<T>(r); if (r.chance(1, 3)) b.data<T>()[i] = m[i]; else b.set<T>(i, m[i]); M->count("stores"); }
	if (!same(b, m)) V("store", "stored components read back differently");
	return b;
}
// moves between arrays of both types
struct Any { std::optional<BA> b; std::vector<double> d; std::vector<std::int64_t> i; bool dbl = false; bool valid = true; bool ok() const { return dbl ? same<double>(*b, d) : same<std::int64_t>(*b, i); } };
static void moves(Rng& r) {
	using T = double; // key suffix only
	Any a[3]; auto fresh = [&](Any& x) { x.dbl = r.chance(1, 2); x.valid = true; if (x.dbl) x.b.emplace(make<double>(r, x.d)); else x.b.emplace(make<std::int64_t>(r, x.i)); };
	for (auto& x : a) fresh(x);
	std::string tr;
	for (int o = 0; o < 12; ++o) {
		auto& x = a[r.below(3)]; auto& y = a[r.below(3)]; M->count("moves");
		switch (r.below(5)) {
			case 0: case 1: if (&x != &y && y.valid) { tr += x.dbl == y.dbl ? " =same" : " =other"; *x.b = std::move(*y.b); x.d = y.d; x.i = y.i; x.dbl = y.dbl; x.valid = true; y.valid = false; } break;
			case 2: if (&x != &y && y.valid) { tr += " ctor"; x.b.reset(); x.b.emplace(std::move(*y.b)); x.d = y.d; x.i = y.i; x.dbl = y.dbl; x.valid = true; y.valid = false; } break;
			case 3: if (x.valid) { tr += " self"; auto& s = *x.b; *x.b = std::move(s); } break;
			case 4: if (x.valid && y.valid && &x != &y) { tr += " swap"; std::swap(*x.b, *y.b); std::swap(x.d, y.d); std::swap(x.i, y.i); std::swap(x.dbl, y.dbl); } break;
		}
		for (auto& z : a) { if (z.valid && !z.ok()) { M->viol("move", "an array changed after" + tr); return; } if (!z.valid && r.chance(1, 2)) fresh(z); }
	}
	M->seenBytes(tr.data(), tr.size(), r.s);
}
// updates
template <typename T> void check(const Accessor& a, const std::vector<T>& lo, const std::vector<T>& hi, const char* what, std::size_t n) {
	M->count("updates");
	if (!a.min || !a.max) { V(std::string("update-missing:") + what, ""); return; }
	if (a.min->size() != n || a.max->size() != n || !a.min->isType<T>() || !a.max->isType<T>()) { V(std::string("update-shape:") + what, ""); return; }
	for (std::size_t i = 0; i < n; ++i) {
		if (!(a.min->get<T>(i) == lo[i])) { V(std::string("min:") + what, "component " + std::to_string(i) + " is " + std::to_string(a.min->get<T>(i)) + ", smallest element seen " + std::to_string(lo[i])); return; }
		if (!(a.max->get<T>(i) == hi[i])) { V(std::string("max:") + what, "component " + std::to_string(i) + " is " + std::to_string(a.max->get<T>(i)) + ", largest element seen " + std::to_string(hi[i])); return; }
	}
}
template <typename T, std::size_t N> void vecUpdate(Rng& r) {
	Accessor a{}; std::vector<T> lo, hi; long n = r.range(1, 12);
	int mode = static_cast<int>(r.below(4)); // all negative / all positive / tiny range / anything
	bool preset = r.chance(1, 4);
	auto gen = [&]() -> T { T v = gnum<T>(r); if (mode == 0) v = v > 0 ? -v : v; if (mode == 1 && v < 0) { if (v == std::numeric_limits<T>::lowest()) v = 1; v = -v; } if (mode == 0 && v == 0) v = -1; if (mode == 1 && v == 0) v = 1; if (mode == 2) v = static_cast<T>(r.range(7, 9)); return v; };
	if (preset) { a.min = BA::ForType<T>(N); a.max = BA::ForType<T>(N); for (std::size_t k = 0; k < N; ++k) { T x = gen(), y = gen(); if (y < x) std::swap(x, y); a.min->template set<T>(k, x); a.max->template set<T>(k, y); lo.push_back(x); hi.push_back(y); } }
	else if (r.chance(1, 6)) { a.max = BA::ForType<T>(N); for (std::size_t k = 0; k < N; ++k) { T y = gen(); a.max->template set<T>(k, y); hi.push_back(y); } }
	else if (r.chance(1, 6)) { a.min = BA::ForType<T>(N); for (std::size_t k = 0; k < N; ++k) { T y = gen(); a.min->template set<T>(k, y); lo.push_back(y); } }
	for (long e = 0; e < n; ++e) {
		std::vector<T> v; for (std::size_t k = 0; k < N; ++k) v.push_back(gen());
		if (lo.empty()) lo = v; if (hi.empty()) hi = v;
		for (std::size_t k = 0; k < N; ++k) { if (v[k] < lo[k]) lo[k] = v[k]; if (v[k] > hi[k]) hi[k] = v[k]; }
		if constexpr (N == 1) a.updateBoundsToInclude(v[0]); else { math::vec<T, N> x; for (std::size_t k = 0; k < N; ++k) x[k] = v[k]; a.updateBoundsToInclude(x); }
		char w[32]; std::snprintf(w, 32, "N%zu:%s", N, e == 0 ? "first" : "later"); check<T>(a, lo, hi, w, N);
		if (r.chance(1, 8)) { Accessor b(std::move(a)); a = std::move(b); check<T>(a, lo, hi, "moved", N); }
		M->seenBytes(v.data(), v.size() * sizeof(T), N);
	}
}
// documents
static const struct { const char* n; int comps; } TYPES[] = {{"SCALAR", 1}, {"VEC2", 2}, {"VEC3", 3}, {"VEC4", 4}, {"MAT2", 4}, {"MAT3", 9}, {"MAT4", 16}};
static const struct { int code; int size; bool fp; double lo, hi; } COMPS[] = {{5120, 1, false, -128, 127}, {5121, 1, false, 0, 255}, {5122, 2, false, -32768, 32767}, {5123, 2, false, 0, 65535}, {5125, 4, false, 0, 4294967295.0}, {5126, 4, true, 0, 0}, {5130, 8, true, 0, 0}};
static void document(Rng& r, long) {
	using T = double;
	std::string js = "{\"asset\":{\"version\":\"2.0\"},\"extensionsUsed\":[\"KHR_accessor_float64\"],\"accessors\":["; int n = static_cast<int>(r.range(1, 6));
	struct Want { bool fp; std::vector<double> d[2]; std::vector<std::int64_t> i[2]; bool has[2]; }; std::vector<Want> want;
	for (int k = 0; k < n; ++k) {
		auto& t = TYPES[r.below(7)]; auto& c = COMPS[r.below(7)]; Want w; w.fp = c.fp; w.has[0] = r.chance(4, 5); w.has[1] = r.chance(4, 5);
		js += std::string(k ? "," : "") + "{\"type\":\"" + t.n + "\",\"componentType\":" + std::to_string(c.code) + ",\"count\":" + std::to_string(r.below(50) + 1);
		for (int b = 0; b < 2; ++b) if (w.has[b]) {
			js += b ? ",\"max\":[" : ",\"min\":[";
			for (int q = 0; q < t.comps; ++q) {
				if (q) js += ',';
				if (c.fp) {
					double v; switch (r.below(5)) { case 0: v = static_cast<double>(r.range(-100, 100)); break; case 1: v = static_cast<double>(r.range(-(1LL << 52), 1LL << 52)); break; case 2: v = std::ldexp(r.uni(-1, 1), static_cast<int>(r.range(-120, 120))); break; case 3: v = static_cast<double>(static_cast<float>(r.uni(-1000, 1000))); break; default: v = r.uni(-1e3, 1e3); }
					char buf[64]; if (v == std::floor(v) && std::fabs(v) < 1e17 && r.chance(1, 2)) std::snprintf(buf, 64, "%.0f", v); else std::snprintf(buf, 64, "%.17g", v);
					js += buf; w.d[b].push_back(v == 0 ? (buf[0] == '-' && std::strchr(buf, '.') ? v : (buf[0] == '-' ? v : 0.0)) : v);
				} else {
					std::int64_t v; switch (r.below(5)) { case 4: v = c.size == 4 ? static_cast<std::int64_t>(r.next()) >> r.below(12) : 1; break; case 0: v = static_cast<std::int64_t>(c.lo); break; case 1: v = static_cast<std::int64_t>(c.hi); break; case 2: v = c.size == 4 ? static_cast<std::int64_t>(4294967295LL) - static_cast<std::int64_t>(r.below(300)) : r.range(0, 10); break; default: v = r.range(static_cast<std::int64_t>(c.lo), static_cast<std::int64_t>(c.hi)); }
					js += std::to_string(v); if (r.chance(1, 10) && v < (1LL << 53) && v > -(1LL << 53)) js += ".0"; w.i[b].push_back(v);
				}
			}
			js += ']';
		}
		js += '}'; want.push_back(std::move(w));
	}
	js += "]}";
	auto cmp = [&](const Asset& as, const char* what, const std::string& text) {
		if (as.accessors.size() != want.size()) { V(std::string("doc-count:") + what, text); return false; }
		for (std::size_t k = 0; k < want.size(); ++k) for (int b = 0; b < 2; ++b) {
			auto& o = b ? as.accessors[k].max : as.accessors[k].min; auto& w = want[k]; M->count("document_bounds");
			std::string where = std::string(b ? "max" : "min") + " of accessor " + std::to_string(k);
			if (o.has_value() != w.has[b]) { V(std::string("doc-presence:") + what, where + ": " + text); return false; }
			if (!o) continue;
			bool okk = true;
			if (w.fp) { okk = o->isType<double>() && o->size() == w.d[b].size(); for (std::size_t q = 0; okk && q < w.d[b].size(); ++q) okk = o->get<double>(q) == w.d[b][q]; }
			else { okk = o->isType<std::int64_t>() && o->size() == w.i[b].size(); for (std::size_t q = 0; okk && q < w.i[b].size(); ++q) okk = o->get<std::int64_t>(q) == w.i[b][q]; }
			if (!okk) { V(std::string("doc-value:") + what, where + ": " + text.substr(0, 1500)); return false; }
		}
		return true;
	};
	Parser p(Extensions::KHR_accessor_float64);
	auto buf = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(js.data()), js.size());
	if (buf.error() != Error::None) { V("doc-buffer", ""); return; }
	auto as = p.loadGltfJson(buf.get(), {}, Options::AllowDouble);
	if (as.error() != Error::None) { V("doc-load", std::string(getErrorName(as.error())) + " for " + js.substr(0, 1500)); return; }
	M->seenBytes(js.data(), js.size());
	if (!cmp(as.get(), "load", js)) return;
	Asset moved(std::move(as.get())); if (!cmp(moved, "asset-move", js)) return;
	Asset second; second = std::move(moved); if (!cmp(second, "asset-move-assign", js)) return;
	Exporter ex; auto out = ex.writeGltfJson(second, r.chance(1, 2) ? ExportOptions::PrettyPrintJson : ExportOptions::None);
	if (out.error() != Error::None) { V("doc-export", std::string(getErrorName(out.error()))); return; }
	auto b2 = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(out.get().output.data()), out.get().output.size());
	auto again = p.loadGltfJson(b2.get(), {}, Options::AllowDouble);
	if (again.error() != Error::None) { V("doc-reload", std::string(getErrorName(again.error())) + " for " + out.get().output.substr(0, 1500)); return; }
	cmp(again.get(), "reload", out.get().output);
	// updating parsed bounds: they extend to the elements, starting from the stated ones
	for (std::size_t k = 0; k < want.size(); ++k) { auto& w = want[k]; auto& acc = second.accessors[k]; if (!w.has[0] || !w.has[1]) continue;
		if (w.fp && w.d[0].size() == 1) { double lo = w.d[0][0], hi = w.d[1][0], x = r.uni(-2000, 2000); acc.updateBoundsToInclude(x); if (x < lo) lo = x; if (x > hi) hi = x; check<double>(acc, {lo}, {hi}, "parsed", 1); }
		else if (!w.fp && w.i[0].size() == 3) { math::vec<std::int64_t, 3> x; auto lo = w.i[0], hi = w.i[1]; for (int q = 0; q < 3; ++q) { x[q] = r.range(-300, 70000); if (x[q] < lo[q]) lo[q] = x[q]; if (x[q] > hi[q]) hi[q] = x[q]; } acc.updateBoundsToInclude(x); check<std::int64_t>(acc, lo, hi, "parsed", 3); } }
}
int main(int argc, char** argv) {
	Mon m(argc, argv); M = &m;
	m.run("storage", m.scale(2000, 50000), [&](Rng& r, long) { std::vector<double> d; std::vector<std::int64_t> i; make<double>(r, d); make<std::int64_t>(r, i); m.seenBytes(d.data(), d.size() * 8); m.seenBytes(i.data(), i.size() * 8); });
	m.run("moves", m.scale(2000, 50000), [&](Rng& r, long) { moves(r); });
	m.run("update", m.scale(2000, 50000), [&](Rng& r, long) {
		vecUpdate<double, 1>(r); vecUpdate<double, 2>(r); vecUpdate<double, 3>(r); vecUpdate<double, 4>(r);
		vecUpdate<std::int64_t, 1>(r); vecUpdate<std::int64_t, 2>(r); vecUpdate<std::int64_t, 3>(r); vecUpdate<std::int64_t, 4>(r); });
	m.run("document", m.scale(3000, 100000), [&](Rng& r, long i) { document(r, i); });
	return m.done();
}
