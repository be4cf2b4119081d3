// C24: model-based operation sequences over SmallVector / StaticVector / Optional with
// instrumented elements (live-object registry, heap payload) and checking allocators.
#include "mon.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
using namespace fastgltf;

static Mon* M;
static std::string CTX;   // container/element label
static std::string TRACE; // operations so far
static void V(const std::string& what, const std::string& d = "") { M->viol(CTX + ":" + what, d + " | ops:" + (TRACE.size() > 300 ? TRACE.substr(TRACE.size() - 300) : TRACE)); }

// ---- live object registry -------------------------------------------------------------
static std::unordered_set<const void*> LIVE;
static long BOMB = -1; // throw when the countdown reaches zero
struct Boom : std::exception {};
static void tick() { if (BOMB >= 0 && BOMB-- == 0) throw Boom(); }
struct Base {
	int* payload;
	void born(int v) { if (!LIVE.insert(this).second) V("construct-over-live", "an element was constructed where a live one already is"); payload = new int(v); }
	static void need(const Base* b) { if (!LIVE.count(b)) { V("use-dead", "an element outside its lifetime was read or assigned"); throw std::runtime_error("dead element used"); } }
	~Base() { if (!LIVE.erase(this)) { V("destroy-dead", "an element was destroyed twice or never constructed"); return; } delete payload; payload = nullptr; }
	int get() const { need(this); return payload ? *payload : -777; }
};
struct Tracked : Base {
	explicit Tracked(int v) { born(v); }
	Tracked() { born(0); }
	Tracked(const Tracked& o) { need(&o); born(o.payload ? *o.payload : -777); }
	Tracked(Tracked&& o) noexcept { if (!LIVE.count(&o)) { V("use-dead", "moved from a dead element"); born(-778); return; } born(o.payload ? *o.payload : -777); delete o.payload; o.payload = nullptr; }
	Tracked& operator=(const Tracked& o) { need(this); need(&o); if (this != &o) { delete payload; payload = new int(o.payload ? *o.payload : -777); } return *this; }
	Tracked& operator=(Tracked&& o) { need(this); need(&o); if (this != &o) { delete payload; payload = o.payload; o.payload = nullptr; } return *this; }
};
struct Ticker { Ticker() { tick(); } Ticker(const Ticker&) { tick(); } }; // throws before the element exists
struct Throwing : Ticker, Base { // may throw from every constructor; move is not noexcept
	explicit Throwing(int v) { born(v); }
	Throwing() { born(0); }
	Throwing(const Throwing& o) : Ticker(o), Base() { need(&o); born(o.payload ? *o.payload : -777); }
	Throwing(Throwing&& o) noexcept(false) : Ticker(o), Base() { need(&o); born(o.payload ? *o.payload : -777); delete o.payload; o.payload = nullptr; }
	Throwing& operator=(const Throwing& o) { need(this); need(&o); tick(); if (this != &o) { delete payload; payload = new int(o.payload ? *o.payload : -777); } return *this; }
	Throwing& operator=(Throwing&& o) { need(this); need(&o); tick(); if (this != &o) { delete payload; payload = o.payload; o.payload = nullptr; } return *this; }
};
struct CopyOnly : Base {
	explicit CopyOnly(int v) { born(v); }
	CopyOnly() { born(0); }
	CopyOnly(const CopyOnly& o) { need(&o); born(*o.payload); }
	CopyOnly& operator=(const CopyOnly& o) { need(this); need(&o); if (this != &o) { delete payload; payload = new int(*o.payload); } return *this; }
};
struct NoMove : Base { // explicitly deleted move, copyable
	explicit NoMove(int v) { born(v); }
	NoMove() { born(0); }
	NoMove(const NoMove& o) { need(&o); born(*o.payload); }
	NoMove(NoMove&&) = delete;
};
struct alignas(64) Wide { int v = 0; char pad[60] = {}; Wide() = default; explicit Wide(int x) : v(x) {} };
struct alignas(32) WideT : Base {
	explicit WideT(int v) { if (reinterpret_cast<std::uintptr_t>(this) % 32) V("misaligned", "element storage is not aligned"); born(v); }
	WideT() : WideT(0) {}
	WideT(const WideT& o) : WideT(o.get()) {}
	WideT& operator=(const WideT& o) { need(this); *payload = o.get(); return *this; }
};
struct MoveOnly : Base {
	explicit MoveOnly(int v) { born(v); }
	MoveOnly() { born(0); }
	MoveOnly(MoveOnly&& o) noexcept { if (!LIVE.count(&o)) { V("use-dead"); born(-778); return; } born(o.payload ? *o.payload : -777); delete o.payload; o.payload = nullptr; }
	MoveOnly& operator=(MoveOnly&& o) { need(this); need(&o); if (this != &o) { delete payload; payload = o.payload; o.payload = nullptr; } return *this; }
};
static bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
template <typename T> T mk(int v) { if constexpr (std::is_same_v<T, std::string>) return std::string("value-") + std::to_string(v) + "-with-a-long-tail-to-force-heap"; else if constexpr (std::is_same_v<T, int*>) return reinterpret_cast<int*>(static_cast<std::intptr_t>(v)); else return T(v); }
template <typename T> int val(const T& t) {
	if constexpr (std::is_base_of_v<Base, T>) return t.get();
	else if constexpr (std::is_same_v<T, Wide>) return t.v;
	else if constexpr (std::is_same_v<T, std::string>) { if (t.empty()) return 0; return std::atoi(t.c_str() + 6); }
	else return static_cast<int>(t);
}
template <typename T> constexpr bool small = std::is_same_v<T, std::uint8_t>;

// ---- checking allocators ---------------------------------------------------------------
struct Arena { std::map<void*, std::size_t> blocks; std::string name; };
static std::map<int, Arena> ARENAS; static long ALLOCS = 0, FREES = 0;
static void* arenaAlloc(int id, std::size_t bytes, std::size_t al) { void* p = ::operator new(bytes ? bytes : 1, std::align_val_t(al)); ARENAS[id].blocks[p] = bytes; ++ALLOCS; return p; }
static void arenaFree(int id, void* p, std::size_t bytes, std::size_t al) {
	auto& b = ARENAS[id].blocks; auto it = b.find(p);
	if (it == b.end()) { V("foreign-free", "a block was freed through an allocator that did not allocate it"); for (auto& [k, a] : ARENAS) if (a.blocks.erase(p)) ::operator delete(p, std::align_val_t(al)); return; }
	if (it->second != bytes) V("free-size", "a block of " + std::to_string(it->second) + " bytes was freed as " + std::to_string(bytes));
	b.erase(it); ++FREES; ::operator delete(p, std::align_val_t(al));
}
template <typename T, bool Prop> struct CAlloc {
	using value_type = T; int id = 0;
	using propagate_on_container_move_assignment = std::bool_constant<Prop>;
	using propagate_on_container_copy_assignment = std::bool_constant<Prop>;
	using is_always_equal = std::false_type;
	CAlloc() = default; explicit CAlloc(int i) : id(i) {}
	template <typename U> CAlloc(const CAlloc<U, Prop>& o) : id(o.id) {}
	template <typename U> struct rebind { using other = CAlloc<U, Prop>; };
	T* allocate(std::size_t n) { return static_cast<T*>(arenaAlloc(id, n * sizeof(T), alignof(T))); }
	void deallocate(T* p, std::size_t n) { arenaFree(id, p, n * sizeof(T), alignof(T)); }
	bool operator==(const CAlloc& o) const { return id == o.id; }
	bool operator!=(const CAlloc& o) const { return id != o.id; }
};
struct Res : std::pmr::memory_resource {
	int id; explicit Res(int i) : id(i) {}
	void* do_allocate(std::size_t b, std::size_t a) override { return arenaAlloc(id, b, a); }
	void do_deallocate(void* p, std::size_t b, std::size_t a) override { arenaFree(id, p, b, a); }
	bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
static Res RES[3] = { Res(100), Res(101), Res(102) };
template <typename A> A mkAlloc(int i) {
	if constexpr (std::is_constructible_v<A, int>) return A(i % 3);
	else if constexpr (std::is_constructible_v<A, std::pmr::memory_resource*>) return A(&RES[i % 3]);
	else return A();
}

template <typename VecT> struct Slot { std::optional<VecT> v; std::vector<int> m; };

template <typename VecT, typename T, std::size_t N> void checkVec(const VecT& v, const std::vector<int>& m) {
	auto sz = [&] { return std::to_string(v.size()) + " expected " + std::to_string(m.size()); };
	if (v.size() != m.size()) { V("size", sz()); throw std::runtime_error("size"); }
	if (v.empty() != m.empty()) V("empty", sz());
	if (v.capacity() < v.size()) V("capacity<size", std::to_string(v.capacity()));
	if (v.size_in_bytes() != m.size() * sizeof(T)) V("size_in_bytes", sz());
	if (v.size() && v.data() == nullptr) { V("null-data"); throw std::runtime_error("null"); }
	auto* obj = reinterpret_cast<const char*>(&v); auto* d = reinterpret_cast<const char*>(v.data());
	bool inside = d >= obj && d < obj + sizeof(v);
	if (inside != v.isUsingStack()) V("isUsingStack", inside ? "data is inside the object" : "data is not inside the object");
	if (inside && v.capacity() > N) V("stack-capacity", "capacity " + std::to_string(v.capacity()) + " claimed for in-object storage of " + std::to_string(N));
	if (inside && (d + v.size() * sizeof(T) > obj + sizeof(v))) V("stack-overflow");
	if (reinterpret_cast<std::uintptr_t>(d) % alignof(T)) V("misaligned");
	std::size_t i = 0;
	for (auto& e : v) { if (i < m.size() && val(e) != m[i]) { V("element", "[" + std::to_string(i) + "] is " + std::to_string(val(e)) + " expected " + std::to_string(m[i])); break; } ++i; }
	if (static_cast<std::size_t>(v.end() - v.begin()) != m.size() || v.cend() - v.cbegin() != v.end() - v.begin()) V("iterators");
	if (!m.empty()) {
		if (val(v.front()) != m.front() || val(v.back()) != m.back()) V("front/back");
		std::size_t k = m.size() / 2;
		if (val(v[k]) != m[k] || val(v.at(k)) != m[k] || val(v.data()[k]) != m[k]) V("index");
		std::size_t j = m.size();
		for (auto it = v.rbegin(); it != v.rend(); ++it) { --j; if (val(*it) != m[j]) { V("reverse"); break; } if (!j) { ++it; if (it != v.rend()) V("reverse-length"); break; } }
		if (j) V("reverse-length");
	}
	bool threw = false; try { (void)v.at(m.size()); } catch (const std::out_of_range&) { threw = true; } if (!threw) V("at-range");
}

template <typename T, std::size_t N, typename A> void vecCase(Rng& r, const char* label, bool throwing) {
	using VecT = SmallVector<T, N, A>;
	constexpr bool copyable = std::is_copy_constructible_v<T> && !std::is_same_v<T, NoMove>;
	constexpr bool copyc = std::is_copy_constructible_v<T>;
	constexpr bool pmr = std::is_same_v<A, std::pmr::polymorphic_allocator<T>>;
	CTX = label; TRACE.clear(); LIVE.clear(); ARENAS.clear(); BOMB = -1;
	{
		Slot<VecT> s[3]; int nextV = 1; // element values stay below 256 for the 8-bit type
		auto nv = [&] { nextV = nextV % 250 + 1; return nextV; };
		auto size = [&]() -> std::size_t { switch (r.below(6)) { case 0: return 0; case 1: return N; case 2: return N + 1; case 3: return r.below(N + 1); case 4: return 1ull << r.below(6); default: return r.below(40); } };
		auto fresh = [&](Slot<VecT>& x) {
			A al = mkAlloc<A>(static_cast<int>(r.below(3)));
			x.v.reset(); x.m.clear();
			switch (r.below(copyable ? 6 : 3)) {
				case 0: TRACE += " new()"; x.v.emplace(); break;
				case 1: TRACE += " new(a)"; x.v.emplace(al); break;
				case 2: { auto n = size(); TRACE += " new(" + std::to_string(n) + ")"; x.v.emplace(n, al); x.m.assign(n, 0); break; }
				default:
					if constexpr (copyable) {
						auto n = size(); int k = nv();
						if (r.chance(1, 3)) { int a = nv(), b = nv(), c = nv(); TRACE += " new{3}"; x.v.emplace(std::initializer_list<T>{mk<T>(a), mk<T>(b), mk<T>(c)}, al); x.m = {a, b, c}; }
						else { TRACE += " new(" + std::to_string(n) + ",v)"; T t = mk<T>(k); x.v.emplace(n, t, al); x.m.assign(n, k); }
					}
			}
		};
		auto resync = [&](Slot<VecT>& x) { // after an exception: whatever it holds must be consistent
			if (!x.v) { x.m.clear(); return; }
			x.m.clear(); for (auto& e : *x.v) { x.m.push_back(val(e)); }
		};
		for (auto& x : s) fresh(x);
		long ops = r.range(4, 40);
		for (long o = 0; o < ops; ++o) {
			int i = static_cast<int>(r.below(3)), j = static_cast<int>(r.below(3)); auto& x = s[i]; auto& y = s[j];
			if (throwing && r.chance(1, 3)) BOMB = static_cast<long>(r.below(8)); else BOMB = -1;
			bool bombArmed = BOMB >= 0;
			M->count("operations");
			try {
				int op = static_cast<int>(r.below(20));
				std::string at = " #" + std::to_string(i) + ".";
				auto& v = *x.v; auto& m = x.m;
				switch (op) {
					case 0: case 1: case 2: { int k = nv(); TRACE += at + "emplace"; T& ref = [&]() -> T& { if constexpr (std::is_base_of_v<Base, T>) return v.emplace_back(k); else return v.emplace_back(mk<T>(k)); }(); m.push_back(k); if (&ref != &v.back()) V("emplace-ref"); break; }
					case 3: if constexpr (copyc && !std::is_same_v<T, NoMove>) { if (!m.empty()) { auto p = r.below(m.size()); TRACE += at + "emplace(self[" + std::to_string(p) + "])"; int k = m[p]; v.emplace_back(v[p]); m.push_back(k); } } break;
					case 4: { auto n = size(); TRACE += at + "resize(" + std::to_string(n) + ")"; v.resize(n); m.resize(n, 0); break; }
					case 5: if constexpr (copyable) { auto n = size(); int k = nv(); TRACE += at + "resize(" + std::to_string(n) + ",v)"; T t = mk<T>(k); v.resize(n, t); m.resize(n, k); if (val(t) != k) V("value-arg-changed", "the value passed to resize was moved from"); } break;
					case 6: if constexpr (copyable) { if (!m.empty()) { auto n = size(); auto p = r.below(m.size()); if (n > p) { TRACE += at + "resize(" + std::to_string(n) + ",self[" + std::to_string(p) + "])"; int k = m[p]; v.resize(n, v[p]); m.resize(n, k); } } } break;
					case 7: { auto n = size(); TRACE += at + "reserve(" + std::to_string(n) + ")"; v.reserve(n); if (v.capacity() < n) V("reserve", "capacity " + std::to_string(v.capacity()) + " after reserve(" + std::to_string(n) + ")"); break; }
					case 8: case 9: TRACE += at + "shrink"; v.shrink_to_fit(); break;
					case 10: TRACE += at + "clear"; v.clear(); m.clear(); break;
					case 11: if constexpr (copyable) { auto n = size(); int k = nv(); TRACE += at + "assign(" + std::to_string(n) + ")"; T t = mk<T>(k); v.assign(n, t); m.assign(n, k); } break;
					case 12: if constexpr (copyable) { if (!m.empty()) { auto n = size(); auto p = r.below(m.size()); TRACE += at + "assign(" + std::to_string(n) + ",self)"; int k = m[p]; v.assign(n, v[p]); m.assign(n, k); } } break;
					case 13: if constexpr (copyable) { int a = nv(), b = nv(), c = nv(), d = nv(); TRACE += at + "assign{4}"; v.assign({mk<T>(a), mk<T>(b), mk<T>(c), mk<T>(d)}); m = {a, b, c, d}; } break;
					case 14: if constexpr (copyable) { TRACE += at + "=#" + std::to_string(j); v = *y.v; m = std::vector<int>(y.m); } break;
					case 15: if constexpr (!std::is_same_v<T, NoMove>) { TRACE += at + "=move#" + std::to_string(j); if (i != j) { v = std::move(*y.v); m = y.m; if (bombArmed) { resync(y); } else { if (!y.v->empty()) V("moved-from", "a moved-from vector is not empty"); y.m.clear(); } } else { auto& al = v; v = std::move(al); } } break;
					case 16: if constexpr (copyable) { if (i != j) { TRACE += at + "copyctor#" + std::to_string(j); x.v.reset(); m.clear(); x.v.emplace(*y.v); m = y.m; } } break;
					case 17: if constexpr (!std::is_same_v<T, NoMove>) { if (i != j) { TRACE += at + "movector#" + std::to_string(j); x.v.reset(); m.clear(); x.v.emplace(std::move(*y.v)); m = y.m; if (bombArmed) { resync(y); } else { if (!y.v->empty()) V("moved-from", "a moved-from vector is not empty"); y.m.clear(); } } } break;
					case 18: if (!m.empty()) { if constexpr (std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>) { auto p = r.below(m.size()); int k = nv(); TRACE += at + "[]="; (r.chance(1, 2) ? v[p] : v.at(p)) = mk<T>(k); m[p] = k; } } break;
					case 19: fresh(x); break;
				}
				BOMB = -1;
			} catch (const Boom&) {
				BOMB = -1; M->count("injected_exceptions"); TRACE += "!";
				if (!x.v) { x.v.emplace(); }
				resync(x); resync(y);
			}
			std::size_t total = 0;
			for (auto& q : s) { if (!q.v) q.v.emplace(); checkVec<VecT, T, N>(*q.v, q.m); total += q.m.size(); }
			if (std::is_base_of_v<Base, T> && LIVE.size() != total) { V("live-count", std::to_string(LIVE.size()) + " live elements, vectors hold " + std::to_string(total)); }
			if constexpr (!std::is_same_v<A, std::allocator<T>>) {
				std::size_t heap = 0, blocks = 0; for (auto& q : s) if (!q.v->isUsingStack()) ++heap;
				for (auto& [k, a] : ARENAS) blocks += a.blocks.size();
				if (blocks != heap) V("block-count", std::to_string(blocks) + " blocks allocated, " + std::to_string(heap) + " vectors on the heap");
				// blocks must be of the claimed capacity
				for (auto& q : s) if (!q.v->isUsingStack()) { bool ok = false; for (auto& [k, a] : ARENAS) { auto it = a.blocks.find(q.v->data()); if (it != a.blocks.end() && it->second == q.v->capacity() * sizeof(T)) ok = true; } if (!ok) V("block-capacity", "heap block does not match the capacity"); }
			}
			(void)pmr;
		}
		M->seenBytes(TRACE.data(), TRACE.size());
		if (M->only >= 0) M->sample(TRACE);
	}
	if (std::is_base_of_v<Base, T> && !LIVE.empty()) V("leaked-elements", std::to_string(LIVE.size()));
	for (auto& [k, a] : ARENAS) if (!a.blocks.empty()) V("leaked-block", std::to_string(a.blocks.size()));
	LIVE.clear();
}

// ---- StaticVector ------------------------------------------------------------------------
template <typename T> void staticCase(Rng& r, const char* label) {
	CTX = label; TRACE.clear(); LIVE.clear(); BOMB = -1;
	{
		auto check = [&](const StaticVector<T>& v, const std::vector<int>& m, const char* what, bool values = true) {
			if (v.size() != m.size() || v.empty() != m.empty() || v.size_bytes() != m.size() * sizeof(T)) { V(std::string("size:") + what, std::to_string(v.size()) + " expected " + std::to_string(m.size())); return; }
			if (static_cast<std::size_t>(v.end() - v.begin()) != m.size()) V(std::string("iter:") + what);
			if (values) { std::size_t i = 0; for (auto& e : v) { if (val(e) != m[i]) { V(std::string("element:") + what, "[" + std::to_string(i) + "] is " + std::to_string(val(e)) + " expected " + std::to_string(m[i])); break; } ++i; }
				for (std::size_t k = 0; k < m.size(); ++k) if (val(v[k]) != m[k]) { V(std::string("index:") + what); break; } }
		};
		auto n = r.chance(1, 5) ? 0 : r.below(33); int k = 1 + static_cast<int>(r.below(200));
		TRACE += " n=" + std::to_string(n);
		T init = mk<T>(k);
		StaticVector<T> a(n, init); check(a, std::vector<int>(n, k), "fill");
		StaticVector<T> z(n); check(z, std::vector<int>(n, 0), "sized", std::is_class_v<T>);
		std::vector<int> m; std::vector<T> sv;
		for (std::size_t i = 0; i < n; ++i) { m.push_back(1 + static_cast<int>(r.below(250))); sv.push_back(mk<T>(m.back())); }
		auto f = StaticVector<T>::fromVector(sv); check(f, m, "fromVector");
		StaticVector<T> c(f); check(c, m, "copy"); check(f, m, "copy-source");
		if (!(c == f)) V("equal", "a copy compares unequal"); if (!(f == sv)) V("equal-vector");
		if (n) { c[r.below(n)] = mk<T>(251); if (c == f) V("unequal"); if (c == sv) V("unequal-vector"); c = StaticVector<T>(f); StaticVector<T> shorter(n - 1, init); if (shorter == f || f == shorter) V("equal-length"); }
		StaticVector<T> d(std::move(c)); check(d, m, "move");
		check(c, {}, "moved-from");
		a = std::move(d); check(a, m, "move-assign"); check(d, {}, "moved-from-assign");
		StaticVector<T> e(d); check(e, {}, "copy-of-empty");
		if (n) { auto p = r.below(n); a[p] = mk<T>(252); m[p] = 252; check(a, m, "write"); }
		auto& self = a; a = std::move(self); check(a, m, "self-move");
		M->seenBytes(TRACE.data(), TRACE.size(), r.s);
		M->count("static_cases");
	}
	if (std::is_base_of_v<Base, T> && !LIVE.empty()) V("leaked-elements", std::to_string(LIVE.size()));
}

// ---- Optional ----------------------------------------------------------------------------
template <typename T> std::uint64_t bits(T v) { std::uint64_t b = 0; std::memcpy(&b, &v, sizeof v); return b; }
template <typename T> std::vector<T> pool(Rng& r) {
	std::vector<T> v;
	if constexpr (std::is_floating_point_v<T>) {
		using L = std::numeric_limits<T>;
		for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, 2146285275.0, 2146285312.0, 9223328122374349677.0, 9.2233281223743e18, 1e-20, 4294967296.0}) v.push_back(static_cast<T>(d));
		v.insert(v.end(), {L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::epsilon(), L::quiet_NaN(), -L::quiet_NaN(), static_cast<T>(static_cast<double>(0x7fedb6db)), static_cast<T>(0x7ffdb6db6db6db6dULL)});
		for (int i = 0; i < 4; ++i) { std::uint64_t b = r.next(); T f; std::memcpy(&f, &b, sizeof f); v.push_back(f); }
	} else if constexpr (std::is_enum_v<T>) {
		if constexpr (std::is_same_v<T, Filter>) for (auto f : {Filter::Nearest, Filter::Linear, Filter::NearestMipMapNearest, Filter::LinearMipMapNearest, Filter::NearestMipMapLinear, Filter::LinearMipMapLinear}) v.push_back(f);
		else for (auto f : {BufferTarget::ArrayBuffer, BufferTarget::ElementArrayBuffer}) v.push_back(f);
		v.push_back(static_cast<T>(0)); v.push_back(static_cast<T>(1)); v.push_back(static_cast<T>(0x7fff));
	} else {
		for (std::uint64_t x : {0ull, 1ull, 255ull, 0x7fffffffull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull}) v.push_back(static_cast<T>(x));
		v.push_back(static_cast<T>(r.next() >> 1));
	}
	// the one reserved marker is not a storable value
	return v;
}
template <typename T> bool reserved(T x) { if constexpr (std::is_same_v<T, float>) return bits(x) == 0x7fedb6db; else if constexpr (std::is_same_v<T, double>) return bits(x) == 0x7ffdb6db6db6db6dULL; else if constexpr (std::is_enum_v<T>) return static_cast<std::underlying_type_t<T>>(x) == std::numeric_limits<std::underlying_type_t<T>>::max(); else return x == std::numeric_limits<T>::max(); }

template <typename T> void optCase(Rng& r, const char* label) {
	using O = Optional<T>; using S = std::optional<T>;
	CTX = label; TRACE.clear();
	auto P = pool<T>(r);
	auto pv = [&] { T x; do x = r.pick(P); while (reserved(x)); return x; };
	auto same = [&](const O& o, const S& s, const char* what) {
		M->count("optional_checks");
		if (o.has_value() != s.has_value() || static_cast<bool>(o) != s.has_value()) { char b[120]; std::snprintf(b, 120, "has_value %d, std::optional %d (bits %016" PRIx64 ")", o.has_value(), s.has_value(), s ? bits(*s) : 0); V(std::string("has:") + what, b); return; }
		if (s) { if (bits(*o) != bits(*s) || bits(o.value()) != bits(*s) || bits(*o.operator->()) != bits(*s)) V(std::string("value:") + what); }
		else { bool t = false; try { (void)o.value(); } catch (const std::bad_optional_access&) { t = true; } if (!t) V(std::string("value-throws:") + what); }
	};
	O o[2]; S s[2];
	{ T x = pv(); O a(x); same(a, S(x), "ctor"); O b(std::in_place, x); same(b, S(x), "in_place"); O c(std::nullopt); same(c, S(), "nullopt"); O d = x; same(d, S(x), "copy-init"); O e(d); same(e, S(x), "copyctor"); O f(std::move(d)); same(f, S(x), "movector"); O g(c); same(g, S(), "copy-empty"); }
	long ops = r.range(3, 24);
	for (long q = 0; q < ops; ++q) {
		int i = static_cast<int>(r.below(2)), j = static_cast<int>(r.below(2)); T x = pv();
		M->count("operations");
		switch (r.below(17)) {
			case 0: TRACE += " =v"; o[i] = x; s[i] = x; break;
			case 1: TRACE += " =null"; o[i] = std::nullopt; s[i] = std::nullopt; break;
			case 2: TRACE += " =o"; if (i != j) { o[i] = o[j]; s[i] = s[j]; } break;
			case 3: TRACE += " =move"; if (i != j) { o[i] = std::move(o[j]); s[i] = S(s[j]); s[j].reset(); o[j].reset(); } break;
			case 4: TRACE += " swap"; if (i != j) { o[i].swap(o[j]); s[i].swap(s[j]); } break;
			case 5: TRACE += " reset"; o[i].reset(); s[i].reset(); break;
			case 6: { TRACE += " emplace"; T& ref = o[i].emplace(x); s[i].emplace(x); if (&ref != &*o[i]) V("emplace-ref"); break; }
			case 7: if (bits(o[i].value_or(x)) != bits(s[i].value_or(x))) V("value_or"); if (bits(O(o[i]).value_or(x)) != bits(s[i].value_or(x))) V("value_or&&"); break;
			case 8: { auto f = [](const T& t) { return Optional<std::uint64_t>(bits(t) & 0xffff); }; auto a = o[i].and_then(f); auto b = std::as_const(o[i]).and_then(f); auto c = O(o[i]).and_then(f); for (auto& z : {a, b, c}) if (z.has_value() != s[i].has_value() || (s[i] && *z != (bits(*s[i]) & 0xffff))) V("and_then"); break; }
			case 9: { auto f = [](const T& t) { return static_cast<std::uint32_t>(bits(t) & 0xffff); }; auto a = o[i].transform(f); auto b = std::as_const(o[i]).transform(f); auto c = O(o[i]).transform(f); for (auto& z : {a, b, c}) if (z.has_value() != s[i].has_value() || (s[i] && *z != (bits(*s[i]) & 0xffff))) V("transform"); break; }
			case 10: { auto f = [&] { return O(x); }; S want = s[i] ? s[i] : S(x); O a = std::as_const(o[i]).or_else(f), b = O(o[i]).or_else(f); same(a, want, "or_else"); same(b, want, "or_else&&"); auto g = [&] { return O(std::nullopt); }; same(std::as_const(o[i]).or_else(g), s[i], "or_else-null"); break; }
			case 11: { S c = o[i]; if (c.has_value() != s[i].has_value() || (c && bits(*c) != bits(*s[i]))) V("to-std"); S d = static_cast<S>(O(o[i])); if (d.has_value() != s[i].has_value() || (d && bits(*d) != bits(*s[i]))) V("to-std&&"); break; }
			case 12: { if ((o[i] == o[j]) != (s[i] == s[j])) V("=="); if ((o[i] != o[j]) != (s[i] != s[j])) V("!="); break; }
			case 13: { if ((o[i] == x) != (s[i] == x)) V("==value"); if ((o[i] != x) != (s[i] != x)) V("!=value"); break; }
			case 14: if constexpr (!std::is_enum_v<T>) { if ((o[i] < x) != (s[i] < x)) V("<value", s[i] ? "" : "empty"); if ((o[i] <= x) != (s[i] <= x)) V("<=value", s[i] ? "" : "empty"); if ((o[i] > x) != (s[i] > x)) V(">value", s[i] ? "" : "empty"); if ((o[i] >= x) != (s[i] >= x)) V(">=value", s[i] ? "" : "empty"); } break;
			case 15: if (s[i]) { *o[i] = x; *s[i] = x; if (bits(o[i].value()) != bits(x)) V("write"); if (r.chance(1, 2)) { T y = pv(); o[i].value() = y; s[i].value() = y; } } break;
			case 16: { auto& self = o[i]; if (r.chance(1, 2)) o[i] = self; else { o[i].swap(self); s[i].swap(s[i]); } break; }
		}
		same(o[0], s[0], "state"); same(o[1], s[1], "state");
	}
	M->seen(r.next());
}
// float-type conversions, empty defaults, and Optional of a type without a marker
static void optMisc(Rng& r) {
	CTX = "Optional<misc>"; TRACE.clear();
	Optional<std::uint32_t> u; if (u.has_value()) V("u32-default"); u = static_cast<std::uint32_t>(r.next()); if (!u) V("u32");
	Optional<float> f; float x = static_cast<float>(r.uni(-10, 10));
	if (f.has_value()) V("float-default");
	Optional<double> d; if (d.has_value()) V("double-default");
	Optional<float> g(x); Optional<double> e(g); if (!e.has_value() || *e != static_cast<double>(x)) V("convert"); Optional<double> e2(f); if (e2.has_value()) V("convert-empty");
	e = f; if (e.has_value()) V("convert-assign-empty"); e = g; if (!e.has_value() || *e != static_cast<double>(x)) V("convert-assign");
	e = Optional<float>(x); if (!e.has_value() || *e != static_cast<double>(x)) V("convert-move-assign");
	M->seen(r.next());
}

// every 32-bit float pattern but the reserved one is storable: sweep a stride of them
static void optFloatSweep(long idx, long n) {
	CTX = "Optional<float>"; TRACE.clear();
	std::uint32_t step = 65537u; long absent = 0;
	for (std::uint64_t b = static_cast<std::uint64_t>(idx) * 7919u % step; b < 0x100000000ull; b += step) {
		float f; auto bb = static_cast<std::uint32_t>(b); std::memcpy(&f, &bb, 4); if (bb == 0x7fedb6db) continue;
		Optional<float> o(f); if (!o.has_value()) { char t[40]; std::snprintf(t, 40, "bits %08x are not storable", bb); V("sweep", t); if (++absent > 2) break; }
	}
	M->count("float_patterns", 0x100000000ull / step); (void)n; M->seen(static_cast<std::uint64_t>(idx) + 0x5eedull);
}

int main(int argc, char** argv) {
	Mon m(argc, argv); M = &m;
	std::pmr::set_default_resource(&RES[0]);
#define VEC(T, N, A, label, q, t) m.run(label, m.scale(q, t), [&](Rng& r, long) { vecCase<T, N, A>(r, label, std::is_same_v<T, Throwing>); });
	VEC(std::uint32_t, 4, std::allocator<std::uint32_t>, "sv_u32_4", 3000, 100000)
	VEC(std::uint8_t, 3, std::allocator<std::uint8_t>, "sv_u8_3", 1500, 50000)
	VEC(std::size_t, 1, std::allocator<std::size_t>, "sv_size_1", 1500, 50000)
	VEC(Tracked, 4, std::allocator<Tracked>, "sv_tracked_4", 3000, 100000)
	VEC(Tracked, 1, std::allocator<Tracked>, "sv_tracked_1", 1500, 50000)
	using P = CAlloc<Tracked, true>; using Q = CAlloc<Tracked, false>; using QU = CAlloc<std::uint32_t, false>;
	VEC(Tracked, 3, P, "sv_tracked_propagating", 3000, 100000)
	VEC(Tracked, 3, Q, "sv_tracked_sticky", 3000, 100000)
	VEC(std::uint32_t, 2, QU, "sv_u32_sticky", 3000, 100000)
	VEC(Tracked, 2, std::pmr::polymorphic_allocator<Tracked>, "sv_tracked_pmr", 3000, 100000)
	VEC(std::string, 4, std::allocator<std::string>, "sv_string_4", 1500, 50000)
	VEC(CopyOnly, 2, std::allocator<CopyOnly>, "sv_copyonly_2", 1500, 50000)
	VEC(NoMove, 2, std::allocator<NoMove>, "sv_nomove_2", 1500, 50000)
	VEC(MoveOnly, 2, std::allocator<MoveOnly>, "sv_moveonly_2", 1500, 50000)
	VEC(Wide, 2, std::allocator<Wide>, "sv_wide_2", 1500, 50000)
	VEC(WideT, 2, std::allocator<WideT>, "sv_widetracked_2", 1500, 50000)
	using PT = CAlloc<Throwing, true>;
	VEC(Throwing, 3, PT, "sv_throwing_3", 4000, 150000)
	m.run("static_u8", m.scale(1500, 50000), [&](Rng& r, long) { staticCase<std::uint8_t>(r, "static_u8"); });
	m.run("static_u32", m.scale(1500, 50000), [&](Rng& r, long) { staticCase<std::uint32_t>(r, "static_u32"); });
	m.run("static_string", m.scale(800, 20000), [&](Rng& r, long) { staticCase<std::string>(r, "static_string"); });
	m.run("static_tracked", m.scale(800, 20000), [&](Rng& r, long) { staticCase<Tracked>(r, "static_tracked"); });
	m.run("opt_size", m.scale(3000, 100000), [&](Rng& r, long) { optCase<std::size_t>(r, "Optional<size_t>"); });
	m.run("opt_float", m.scale(3000, 100000), [&](Rng& r, long) { optCase<float>(r, "Optional<float>"); });
	m.run("opt_double", m.scale(3000, 100000), [&](Rng& r, long) { optCase<double>(r, "Optional<double>"); });
	m.run("opt_filter", m.scale(2000, 50000), [&](Rng& r, long) { optCase<Filter>(r, "Optional<Filter>"); });
	m.run("opt_target", m.scale(2000, 50000), [&](Rng& r, long) { optCase<BufferTarget>(r, "Optional<BufferTarget>"); });
	m.run("opt_misc", m.scale(200, 2000), [&](Rng& r, long) { optMisc(r); });
	m.run("opt_float_sweep", m.scale(16, 400), [&](Rng&, long i) { optFloatSweep(i, 0); });
	return m.done();
}
