// C18: local transforms, decomposition and scene traversal against matrix algebra in long double.
#include "mon.hpp"
#include <cmath>
#include <algorithm>
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
namespace fg = fastgltf; namespace fm = fastgltf::math;
using ld = long double;
struct M4 { ld e[4][4]; };   // e[row][col]
static M4 mul(const M4& a, const M4& b) { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r.e[i][j] = 0; for (int k = 0; k < 4; ++k) r.e[i][j] += a.e[i][k] * b.e[k][j]; } return r; }
static M4 ident() { M4 r{}; for (int i = 0; i < 4; ++i) r.e[i][i] = 1; return r; }
static M4 rotm(const ld q[4]) { ld x = q[0], y = q[1], z = q[2], w = q[3]; M4 r = ident();
	r.e[0][0] = w * w + x * x - y * y - z * z; r.e[0][1] = 2 * (x * y - w * z); r.e[0][2] = 2 * (x * z + w * y);
	r.e[1][0] = 2 * (x * y + w * z); r.e[1][1] = w * w - x * x + y * y - z * z; r.e[1][2] = 2 * (y * z - w * x);
	r.e[2][0] = 2 * (x * z - w * y); r.e[2][1] = 2 * (y * z + w * x); r.e[2][2] = w * w - x * x - y * y + z * z; return r; }
struct Trs { ld t[3], q[4], s[3]; };
static M4 compose(const Trs& p) { M4 r = rotm(p.q); for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) r.e[i][j] *= p.s[j]; for (int i = 0; i < 3; ++i) r.e[i][3] = p.t[i]; return r; }
static M4 from(const fm::fmat4x4& m) { M4 r; for (int c = 0; c < 4; ++c) for (int i = 0; i < 4; ++i) r.e[i][c] = m.col(c)[i]; return r; }
static fm::fmat4x4 to(const M4& m) { fm::fmat4x4 r; for (int c = 0; c < 4; ++c) for (int i = 0; i < 4; ++i) r.col(c)[i] = static_cast<float>(m.e[i][c]); return r; }
static std::string show(const M4& m) { std::string s; char b[40]; for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) { std::snprintf(b, 40, "%.7Lg ", m.e[i][j]); s += b; } s += "| "; } return s; }
// difference relative to the largest entry of each column
static bool close(const M4& a, const M4& b, ld tol, std::string* why = nullptr) {
	for (int c = 0; c < 4; ++c) { ld mx = 0; for (int i = 0; i < 4; ++i) mx = std::max({ mx, std::abs(a.e[i][c]), std::abs(b.e[i][c]) });
		for (int i = 0; i < 4; ++i) if (!(std::abs(a.e[i][c] - b.e[i][c]) <= tol * mx + 1e-30L)) { if (why) { char t[120]; std::snprintf(t, 120, "entry row %d column %d: %.8Lg vs %.8Lg", i, c, a.e[i][c], b.e[i][c]); *why = t; } return false; } }
	return true;
}
static void unit(Rng& r, ld q[4]) {
	static const ld H = 0.70710678118654752440L;
	int k = static_cast<int>(r.below(8)); ld z[4] = { 0, 0, 0, 0 };
	if (k == 0) { z[3] = 1; }
	else if (k == 1) { z[r.below(3)] = r.chance(1, 2) ? 1 : -1; }                                             // half turn about an axis
	else if (k == 2) { int i = static_cast<int>(r.below(3)), j = (i + 1 + static_cast<int>(r.below(2))) % 3; z[i] = H; z[j] = r.chance(1, 2) ? H : -H; } // half turn about a diagonal
	else if (k == 3) { int i = static_cast<int>(r.below(3)); z[i] = r.chance(1, 2) ? H : -H; z[3] = H; }        // quarter turn
	else if (k == 4) { for (int i = 0; i < 3; ++i) z[i] = r.uni(-1, 1); z[3] = 0; }                            // half turn about anything
	else if (k == 5) { for (int i = 0; i < 3; ++i) z[i] = r.uni(-1, 1); z[3] = r.uni(-1e-3, 1e-3); }           // nearly a half turn
	else if (k == 6) { for (int i = 0; i < 3; ++i) z[i] = r.uni(-1e-3, 1e-3); z[3] = 1; }                      // tiny
	else for (int i = 0; i < 4; ++i) z[i] = r.uni(-1, 1);
	ld n = 0; for (ld v : z) n += v * v; n = std::sqrt(n); if (n < 1e-9L) { z[3] = 1; n = 1; } for (int i = 0; i < 4; ++i) q[i] = z[i] / n;
}
static Trs rndTrs(Rng& r, bool zero = true) {
	Trs p; for (auto& v : p.t) v = r.chance(1, 4) ? 0 : r.uni(-100, 100); unit(r, p.q);
	int k = static_cast<int>(r.below(7)); 
	for (auto& v : p.s) v = k == 0 ? 1 : k == 1 ? r.uni(1e-3, 1e-2) : k == 2 ? r.uni(100, 1000) : r.uni(0.1, 3);
	if (k == 3) p.s[r.below(3)] *= -1; if (k == 4) for (auto& v : p.s) if (r.chance(1, 2)) v = -v;
	if (zero && k == 5) for (auto& v : p.s) if (r.chance(1, 2)) v = 0;
	if (k == 6) p.s[1] = p.s[2] = p.s[0];
	return p;
}
static const char* kindOf(const Trs& p) { int neg = 0, zero = 0; for (ld s : p.s) { neg += s < 0; zero += s == 0; } return zero ? "zero-scale" : neg % 2 ? "mirrored" : neg ? "two-negative" : std::abs(p.q[3]) < 1e-2L ? "half-turn" : "plain"; }
static fg::TRS toTrs(const Trs& p) { fg::TRS t; for (int i = 0; i < 3; ++i) { t.translation[i] = static_cast<float>(p.t[i]); t.scale[i] = static_cast<float>(p.s[i]); } for (int i = 0; i < 4; ++i) t.rotation[i] = static_cast<float>(p.q[i]); return t; }
static Trs fromTrs(const fg::TRS& t) { Trs p; for (int i = 0; i < 3; ++i) { p.t[i] = t.translation[i]; p.s[i] = t.scale[i]; } for (int i = 0; i < 4; ++i) p.q[i] = t.rotation[i]; return p; }

int main(int argc, char** argv) {
	Mon m(argc, argv);
	m.run("decompose", m.scale(60000, 3000000), [&](Rng& r, long idx) {
		Trs p = rndTrs(r); fm::fmat4x4 mat = to(compose(p)); M4 want = from(mat);
		fg::TRS t; fm::fmat4x4 arg = mat; fm::decomposeTransformMatrix(arg, t.scale, t.rotation, t.translation);
		std::string k = kindOf(p), why; M4 got = compose(fromTrs(t));
		ld n = 0; for (int i = 0; i < 4; ++i) n += ld(t.rotation[i]) * t.rotation[i];
		char in[200]; std::snprintf(in, 200, "q=(%.6Lg %.6Lg %.6Lg %.6Lg) s=(%.6Lg %.6Lg %.6Lg): ", p.q[0], p.q[1], p.q[2], p.q[3], p.s[0], p.s[1], p.s[2]);
		if (!(std::abs(n - 1) < 1e-5L)) m.viol("decompose/rotation-not-unit/" + k, std::string(in) + "squared length " + std::to_string(static_cast<double>(n)));
		// the documented algorithm may lose some precision, so the bound is generous
		else if (!close(got, want, 1e-3L, &why)) m.viol("decompose/" + k, in + why + " recomposed " + show(got) + " from " + show(want));
		else { fg::Node nd; nd.transform = t; M4 lib = from(fg::getLocalTransformMatrix(nd)); if (!close(lib, want, 1e-3L, &why)) m.viol("decompose-local/" + k, in + why); }
		if (idx % 9973 == 1) m.sample(std::string("decompose ") + in + show(want));
		m.count("decomposed_" + k); m.seenBytes(&t, sizeof t);
	});
	m.run("local", m.scale(20000, 1000000), [&](Rng& r, long) {
		Trs p = rndTrs(r); fg::Node n; fg::TRS t = toTrs(p); n.transform = t; Trs q = fromTrs(t); M4 want = compose(q), got = from(fg::getLocalTransformMatrix(n)); std::string why;
		if (!close(got, want, 1e-5L, &why)) m.viol("local-trs", why + " got " + show(got) + " must be " + show(want));
		fm::fmat4x4 raw; for (int c = 0; c < 4; ++c) for (int i = 0; i < 4; ++i) raw.col(c)[i] = static_cast<float>(r.uni(-9, 9));
		Trs bp = rndTrs(r, false); fm::fmat4x4 base = to(compose(bp)); M4 B = from(base);
		M4 g2 = from(fg::getTransformMatrix(n, base)); if (!close(g2, mul(B, want), 1e-4L, &why)) m.viol("transform-trs", why);
		if (!close(from(fg::getTransformMatrix(n)), want, 1e-5L, &why)) m.viol("transform-default-base", why);
		fg::Node k; k.transform = raw; if (std::memcmp(fg::getLocalTransformMatrix(k).data(), raw.data(), 64)) m.viol("local-matrix", "the node's matrix was changed");
		M4 g3 = from(fg::getTransformMatrix(k, base)), w3 = mul(B, from(raw)); for (int c = 0; c < 4; ++c) for (int i = 0; i < 4; ++i) { ld z = 0; for (int j = 0; j < 4; ++j) z += std::abs(B.e[i][j] * raw.col(c)[j]); if (std::abs(g3.e[i][c] - w3.e[i][c]) > 1e-5L * z) { m.viol("transform-matrix", "product is wrong"); c = 4; break; } }
		fg::Node d; if (!close(from(fg::getLocalTransformMatrix(d)), ident(), 0, &why)) m.viol("local-default", why);
		m.seenBytes(&t, sizeof t);
	});
	m.run("scene", m.scale(6000, 200000), [&](Rng& r, long idx) {
		// forests, and graphs in which a node has several parents (each path is then one visit)
		fg::Asset a; std::size_t n = 1 + r.below(14); bool dag = r.chance(1, 3), deep = idx % 97 == 0; if (deep) { n = 300 + r.below(500); dag = false; }
		std::vector<std::vector<std::size_t>> kids(n); std::vector<char> hasParent(n, 0);
		std::vector<std::size_t> perm(n); for (std::size_t i = 0; i < n; ++i) perm[i] = i; for (std::size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
		for (std::size_t i = 1; i < n; ++i) { if (!deep && r.chance(1, 4)) continue; std::size_t par = deep ? i - 1 : r.below(i); kids[perm[par]].push_back(perm[i]); hasParent[perm[i]] = 1; if (dag && r.chance(1, 3)) { std::size_t p2 = r.below(i); if (p2 != par) kids[perm[p2]].push_back(perm[i]); } }
		std::vector<M4> local(n);
		for (std::size_t i = 0; i < n; ++i) {
			fg::Node nd; Trs p = rndTrs(r, false); if (deep) { for (auto& s : p.s) s = 1; for (auto& t : p.t) t /= 100; } else for (auto& s : p.s) { s = s < 0 ? -1 : 1; s *= r.uni(0.5, 2); }
			if (r.chance(1, 2)) nd.transform = toTrs(p); else nd.transform = to(compose(p));
			nd.name = "n" + std::to_string(i); for (auto c : kids[i]) nd.children.emplace_back(c);
			local[i] = from(fg::getLocalTransformMatrix(nd)); a.nodes.emplace_back(std::move(nd));
		}
		std::size_t ns = 1 + r.below(3); std::size_t pick = r.below(ns); std::vector<std::size_t> roots;
		for (std::size_t s = 0; s < ns; ++s) { fg::Scene sc; for (std::size_t i = 0; i < n; ++i) if (!hasParent[i] ? r.chance(3, 4) : (dag && r.chance(1, 10))) { sc.nodeIndices.emplace_back(i); if (s == pick) roots.push_back(i); } a.scenes.emplace_back(std::move(sc)); }
		fm::fmat4x4 init = r.chance(1, 2) ? fm::fmat4x4() : to(compose([&] { Trs p = rndTrs(r, false); for (auto& s : p.s) s = r.uni(0.5, 2); return p; }()));
		struct Visit { std::size_t node; M4 mat; long parent; };   // expected: one per path
		std::vector<Visit> want; std::vector<std::pair<std::size_t, long>> st;
		for (auto it = roots.rbegin(); it != roots.rend(); ++it) st.push_back({ *it, -1 });
		while (!st.empty()) { auto [nd, par] = st.back(); st.pop_back(); want.push_back({ nd, mul(par < 0 ? from(init) : want[par].mat, local[nd]), par }); long me = static_cast<long>(want.size()) - 1; for (auto it = kids[nd].rbegin(); it != kids[nd].rend(); ++it) st.push_back({ *it, me }); if (want.size() > 20000) return; }
		std::vector<long> matched(want.size(), -1); long order = 0; std::string err; const fg::Node* base = a.nodes.data();
		auto onVisit = [&](const fg::Node& nd, const fm::fmat4x4& mt) {
			std::size_t id = static_cast<std::size_t>(&nd - base); M4 got = from(mt); long hit = -1, cand = -1; 
			for (std::size_t i = 0; i < want.size(); ++i) { if (want[i].node != id || matched[i] >= 0) continue; cand = static_cast<long>(i); 
				ld mx = 0; for (auto& row : want[i].mat.e) for (ld v : row) mx = std::max(mx, std::abs(v)); bool ok = true; for (int x = 0; x < 4 && ok; ++x) for (int y = 0; y < 4 && ok; ++y) ok = std::abs(got.e[x][y] - want[i].mat.e[x][y]) <= 2e-4L * mx; if (ok) { hit = static_cast<long>(i); break; } }
			if (hit < 0) { if (err.empty()) err = cand < 0 ? "extra-visit node " + std::to_string(id) : "matrix node " + std::to_string(id) + " got " + show(got) + " must be " + show(want[cand].mat); return; }
			if (want[hit].parent >= 0 && matched[want[hit].parent] < 0 && err.empty()) err = "order node " + std::to_string(id) + " was visited before its parent";
			matched[hit] = order++; m.count("visits");
		};
		switch (r.below(3)) {
			case 0: fg::iterateSceneNodes(a, pick, init, [&](fg::Node& nd, const fm::fmat4x4& mt) { onVisit(nd, mt); }); break;
			case 1: { const fg::Asset& c = a; fg::iterateSceneNodes(const_cast<fg::Asset&>(c), pick, init, [&](auto&& nd, auto mt) { onVisit(nd, mt); }); break; }
			default: fg::iterateSceneNodes(a, pick, init, [&](fg::Node& nd, fm::fmat4x4 mt) { onVisit(nd, mt); nd.name = "seen"; }); break;
		}
		if (err.empty()) for (std::size_t i = 0; i < want.size(); ++i) if (matched[i] < 0) { err = "missed-visit node " + std::to_string(want[i].node); break; }
		if (!err.empty()) m.viol("scene/" + err.substr(0, err.find(' ')), err + " in a graph of " + std::to_string(n) + " nodes, " + std::to_string(want.size()) + " paths");
		m.count("paths", want.size()); if (dag) m.count("shared_node_graphs"); if (deep) m.count("deep_chains"); std::uint64_t h = n; for (auto& k : kids) { h = h * 131 + 7; for (auto c : k) h = h * 131 + c; } m.seen(h);
	});
	m.run("path", m.scale(4, 200), [&](Rng& r, long idx) {
		// long paths, with leaves beside them: a scene may be as deep as it has nodes
		fg::Asset a; const std::size_t n = 60000 + r.below(idx % 4 == 0 ? 200000 : 20000); a.nodes.resize(n); fg::Scene sc; std::vector<ld> x(n, 0); std::vector<long> depth(n, 0); std::size_t tail = 0, leaf = 1 + r.below(9); long deepest = 0;
		for (std::size_t i = 0; i < n; ++i) {
			fg::TRS t; t.translation = fm::fvec3(static_cast<float>(r.below(3)), 0, 1); a.nodes[i].transform = t; x[i] = t.translation[0];
			if (i == 0) { sc.nodeIndices.emplace_back(i); continue; }
			a.nodes[tail].children.emplace_back(i); x[i] += x[tail]; depth[i] = depth[tail] + 1; deepest = std::max(deepest, depth[i]); if (i % leaf || leaf == 1) tail = i;
		}
		a.scenes.emplace_back(std::move(sc)); std::vector<char> seen(n, 0); std::size_t visits = 0; std::string err; if (fg::validate(a) != fg::Error::None) err = "invalid";
		fg::iterateSceneNodes(a, 0, fm::fmat4x4(), [&](fg::Node& nd, const fm::fmat4x4& mt) {
			std::size_t id = static_cast<std::size_t>(&nd - a.nodes.data()); ++visits; if (seen[id]++) err = "extra-visit"; for (auto c : nd.children) if (seen[c]) err = "order";
			if (mt.col(3)[0] != static_cast<float>(x[id]) || mt.col(3)[2] != static_cast<float>(depth[id] + 1)) err = "matrix"; // sums of small integers are exact
		});
		if (err.empty() && visits != n) err = "missed-visit";
		if (!err.empty()) m.viol("path/" + err, std::to_string(n) + " nodes, " + std::to_string(deepest) + " deep");
		m.count("long_paths"); m.count("visits", static_cast<long>(visits)); m.seen(n * 31 + leaf);
	});
	return m.done();
}
