// C11: independent parsers, exporters, decoders and readers of a shared asset on several threads, under ThreadSanitizer and at
// full speed; every result is compared with the one a single thread gets afterwards.
#include "mon.hpp"
#include "dump.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include <fastgltf/base64.hpp>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include <thread>
namespace fg = fastgltf; namespace fs = std::filesystem;

struct Doc { std::string bytes; fs::path dir; };
static std::vector<Doc> docs;
static fs::path scratch;

struct Job { int kind; std::uint64_t a, b; };
static const int OWN = 9, ALL = 16;       // kinds below OWN use nothing but their own objects
static const char* NAMES[] = { "load", "load-twice", "load-and-export", "file-export", "base64", "uri", "text", "file-type", "load-from-file", "validate-shared", "export-shared", "read-shared", "transform-shared", "dump-shared", "scene-shared", "find-shared" };
struct Shared { std::vector<std::unique_ptr<fg::Asset>> assets; };

static fg::Extensions exts(std::uint64_t k) { return k % 4 == 3 ? fg::Extensions::None : static_cast<fg::Extensions>(~0ull >> 24); }
static fg::Options opts(std::uint64_t k) { auto o = fg::Options::AllowDouble | fg::Options::LoadExternalBuffers; if (k & 4) o |= fg::Options::DecomposeNodeMatrices; if (k & 8) o |= fg::Options::GenerateMeshIndices; if (k & 16) o |= fg::Options::LoadExternalImages; return o; }
static fg::Expected<fg::Asset> loadDoc(fg::Parser& p, const Doc& d, std::uint64_t k, bool file = false, std::size_t index = 0) {
	if (file) {
		auto path = d.dir / ("doc" + std::to_string(index));
		if (k & 32) { auto g = fg::MappedGltfFile::FromPath(path); if (g.error() != fg::Error::None) return g.error(); return p.loadGltf(g.get(), d.dir, opts(k)); }
		if (k & 64) { fg::GltfFileStream g(path); if (!g.isOpen()) return fg::Error::InvalidPath; return p.loadGltf(g, d.dir, opts(k)); }
		auto g = fg::GltfDataBuffer::FromPath(path); if (g.error() != fg::Error::None) return g.error(); return p.loadGltf(g.get(), d.dir, opts(k));
	}
	auto g = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(d.bytes.data()), d.bytes.size()); if (g.error() != fg::Error::None) return g.error();
	return p.loadGltf(g.get(), d.dir, opts(k));
}
static std::string exported(const fg::Asset& a, std::uint64_t k) {
	fg::Exporter x; auto o = k & 2 ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	if (k & 4) o = o | fg::ExportOptions::ValidateAsset;
	if (k & 1) { auto r = x.writeGltfBinary(a, o); return std::string(errName(r.error())) + (r.error() == fg::Error::None ? std::string(reinterpret_cast<const char*>(r.get().output.data()), r.get().output.size()) : ""); }
	auto r = x.writeGltfJson(a, o); return std::string(errName(r.error())) + (r.error() == fg::Error::None ? r.get().output : "");
}
template <typename T> static void readOne(const fg::Asset& as, const fg::Accessor& acc, std::uint64_t how, std::ostringstream& o) {
	auto put = [&](const T& v) { if constexpr (std::is_arithmetic_v<T>) o << v << ' '; else for (std::size_t i = 0; i < v.size(); ++i) o << v[i] << ' '; };
	if (how % 3 == 0) fg::iterateAccessor<T>(as, acc, put);
	else if (how % 3 == 1) { std::vector<T> v(acc.count); if (acc.count) fg::copyFromAccessor<T>(as, acc, v.data()); for (auto& x : v) put(x); }
	else for (std::size_t i = 0; i < acc.count; ++i) put(fg::getAccessorElement<T>(as, acc, i));
}
static std::string randomText(std::uint64_t seed, bool b64) {
	Rng r(seed); static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s; std::size_t n = b64 ? 4 * (1 + r.below(2000)) : r.below(300);
	for (std::size_t i = 0; i < n; ++i) s += b64 ? A[r.below(64)] : static_cast<char>(r.below(5) ? 32 + r.below(90) : "\"\\/%\n\t{}[]:,"[r.below(12)]);
	return s;
}
static std::string perform(const Job& j, const Shared& sh, int unique) {
	auto& d = docs[j.a % docs.size()]; std::ostringstream o;
	switch (j.kind) {
		case 0: { fg::Parser p(exts(j.b)); auto r = loadDoc(p, d, j.b); return std::string(errName(r.error())) + (r.error() == fg::Error::None ? dumpAsset(r.get()) : ""); }
		case 1: { fg::Parser p(exts(j.b)); std::string s; for (int k = 0; k < 2; ++k) { auto r = loadDoc(p, docs[(j.a + k * 7) % docs.size()], j.b); s += errName(r.error()); if (r.error() == fg::Error::None) s += dumpAsset(r.get()); } return s; }
		case 2: { fg::Parser p(exts(j.b)); auto r = loadDoc(p, d, j.b); if (r.error() != fg::Error::None) return errName(r.error()); return errName(fg::validate(r.get())) + exported(r.get(), j.b >> 8); }
		case 3: {
			fg::Parser p(exts(j.b)); auto r = loadDoc(p, d, j.b); if (r.error() != fg::Error::None) return errName(r.error());
			auto dir = scratch / ("x" + std::to_string(::getpid()) + "_" + std::to_string(unique)); fs::create_directories(dir); fg::FileExporter x; x.setBufferPath("b"); x.setImagePath("i");
			auto e = j.b & 256 ? x.writeGltfBinary(r.get(), dir / "out.glb") : x.writeGltfJson(r.get(), dir / "out.gltf"); o << errName(e); std::map<std::string, std::string> files;
			for (auto& f : fs::recursive_directory_iterator(dir)) if (f.is_regular_file()) { std::ifstream in(f.path(), std::ios::binary); std::ostringstream t; t << in.rdbuf(); files[fs::relative(f.path(), dir).string()] = t.str(); }
			for (auto& [k, v] : files) o << "|" << k << "=" << v; fs::remove_all(dir); return o.str();
		}
		case 4: { auto t = randomText(j.a, true); auto v = j.b % 3 ? fg::base64::decode(t) : fg::base64::fallback_decode(t); return std::string(reinterpret_cast<const char*>(v.data()), v.size()); }
		case 5: { auto t = "file://u@h:1/" + randomText(j.a, true).substr(0, 40) + "%41%42?q=1#f"; fg::URI u{ std::string_view(t) }; fg::URI c(u); fg::URIView v(c); o << c.string() << v.path() << v.query() << v.isLocalPath() << v.fspath().string(); std::string q(v.path()); fg::URI::decodePercents(q); return o.str() + q; }
		case 6: { auto t = randomText(j.a, false); auto e = fg::escapeString(t); std::string js = "{\"a\":[1,2,\"" + e + "\"],\"b\":{}}"; fg::prettyPrintJson(js); return e + js; }
		case 7: { auto g = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(d.bytes.data()), d.bytes.size()); return g.error() == fg::Error::None ? std::to_string(static_cast<int>(fg::determineGltfFileType(g.get()))) : "fail"; }
		case 8: { fg::Parser p(exts(j.b)); auto r = loadDoc(p, d, j.b, true, j.a % docs.size()); return std::string(errName(r.error())) + (r.error() == fg::Error::None ? dumpAsset(r.get()) : ""); }
	}
	const fg::Asset& as = *sh.assets[j.a % sh.assets.size()];
	switch (j.kind) {
		case 9: return errName(fg::validate(as));
		case 10: return exported(as, j.b);
		case 11:
			for (std::size_t k = 0; k < 4 && !as.accessors.empty(); ++k) {
				auto& acc = as.accessors[(j.b + k) % as.accessors.size()];
				switch (acc.type) { case fg::AccessorType::Scalar: readOne<float>(as, acc, j.b, o); break; case fg::AccessorType::Vec2: readOne<fg::math::fvec2>(as, acc, j.b, o); break; case fg::AccessorType::Vec3: readOne<fg::math::fvec3>(as, acc, j.b, o); break; case fg::AccessorType::Vec4: readOne<fg::math::fvec4>(as, acc, j.b, o); break; default: break; }
				o << ';';
			}
			return o.str();
		case 12: for (auto& n : as.nodes) { auto x = fg::getTransformMatrix(n); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) o << x.col(c)[r] << ' '; } return o.str();
		case 13: return dumpAsset(as);
		case 14: for (std::size_t s = 0; s < as.scenes.size(); ++s) fg::iterateSceneNodes(as, s, fg::math::fmat4x4(1.f), [&](auto& n, const fg::math::fmat4x4& x) { o << (&n - as.nodes.data()) << ':' << x.col(3)[0] << ' '; }); return o.str();
		default: for (auto& m : as.meshes) for (auto& p : m.primitives) { auto it = p.findAttribute("POSITION"); o << (it == p.attributes.end() ? 0 : it->accessorIndex + 1) << ' '; } return o.str();
	}
}

int main(int argc, char** argv) {
	Mon m(argc, argv); const char* root = std::getenv("FG_DOCS"); if (!root) { std::fprintf(stderr, "FG_DOCS is not set\n"); return 8; } scratch = fs::path(root) / "scratch"; fs::create_directories(scratch);
	for (int i = 0; fs::exists(fs::path(root) / std::to_string(i) / ("doc" + std::to_string(i))); ++i) { auto dir = fs::path(root) / std::to_string(i); std::ifstream in(dir / ("doc" + std::to_string(i)), std::ios::binary); std::ostringstream t; t << in.rdbuf(); docs.push_back({ t.str(), dir }); }
	if (docs.empty()) { std::fprintf(stderr, "no documents\n"); return 8; }
	const char* rep = std::getenv("FG_REPEAT"); const int repeat = rep ? std::atoi(rep) : 1; bool used = false;
	auto conduct = [&](Rng& r, bool first) {
		Shared sh;
		if (!first) for (int k = 0; k < 3; ++k) { fg::Parser p(exts(0)); auto x = loadDoc(p, docs[r.below(docs.size())], 0); if (x.error() == fg::Error::None) sh.assets.push_back(std::make_unique<fg::Asset>(std::move(x.get()))); }
		const int T = static_cast<int>(2 + r.below(first ? 7 : 6)), J = first ? 2 : static_cast<int>(3 + r.below(4)); const int kinds = sh.assets.empty() ? OWN : ALL; const bool same = first || r.chance(1, 4); Job common{ static_cast<int>(r.below(first ? 5 : kinds)), r.next(), r.next() };
		std::vector<std::vector<Job>> jobs(T); std::vector<std::vector<std::string>> results(T); std::vector<std::vector<std::array<std::uint32_t, 2>>> ticks(T);
		for (int t = 0; t < T; ++t) for (int k = 0; k < J; ++k) { Job x{ static_cast<int>(r.below(kinds)), r.next(), r.next() }; if (same && k == 0) { x = common; if (r.chance(1, 3)) x.a = r.next(); } if (r.chance(1, 3)) x.a = common.a; jobs[t].push_back(x); }
		std::atomic<int> ready{ 0 }; std::atomic<std::uint32_t> tick{ 0 }; std::vector<std::uint64_t> delays(T); for (auto& d : delays) d = r.next();
		std::vector<std::thread> ths;
		for (int t = 0; t < T; ++t) ths.emplace_back([&, t] {
			Rng d(delays[t]); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) {}
			for (std::size_t k = 0; k < jobs[t].size(); ++k) {
				switch (d.below(6)) { case 0: std::this_thread::yield(); break; case 1: for (volatile int z = 0; z < static_cast<int>(200); z = z + 1) {} break; case 2: ::usleep(static_cast<unsigned>(d.below(300))); break; default: break; }
				auto b = tick.fetch_add(1, std::memory_order_relaxed); auto s = perform(jobs[t][k], sh, t * 100 + static_cast<int>(k)); auto e = tick.fetch_add(1, std::memory_order_relaxed);
				results[t].push_back(std::move(s)); ticks[t].push_back({ b, e });
			}
		});
		for (auto& x : ths) x.join();
		// what one thread alone gets
		std::uint64_t order = T; std::vector<std::pair<std::uint32_t, int>> ev; std::uint64_t overlaps = 0;
		for (int t = 0; t < T; ++t) for (std::size_t k = 0; k < jobs[t].size(); ++k) {
			auto want = perform(jobs[t][k], sh, 9000); m.count(std::string("jobs_") + NAMES[jobs[t][k].kind]); ev.push_back({ ticks[t][k][0], t * 40 + jobs[t][k].kind }); ev.push_back({ ticks[t][k][1], 1000 + t });
			if (want != results[t][k]) { std::size_t p = 0; while (p < want.size() && p < results[t][k].size() && want[p] == results[t][k][p]) ++p; auto q = p > 60 ? p - 60 : 0; m.viol(std::string("result:") + NAMES[jobs[t][k].kind], "document " + std::to_string(jobs[t][k].a % docs.size()) + " alone: ..." + want.substr(q, 200) + " with other threads: ..." + results[t][k].substr(q, 200)); }
			for (int u = 0; u < t; ++u) for (auto& z : ticks[u]) overlaps += z[0] < ticks[t][k][1] && ticks[t][k][0] < z[1];
		}
		std::sort(ev.begin(), ev.end()); for (auto& x : ev) order = (order ^ static_cast<std::uint64_t>(x.second)) * 1099511628211ull + 7;
		m.seen(order); m.count("overlapping_job_pairs", overlaps); m.count(std::string("threads_") + std::to_string(T)); if (first) m.count("fresh_processes");
		m.sample(std::to_string(T) + " threads, first jobs " + NAMES[jobs[0][0].kind] + " / " + NAMES[jobs[1][0].kind] + ", overlapping pairs " + std::to_string(overlaps));
	};
	// One per process, before anything else uses the library.
	m.run("first", m.nshards, [&](Rng& r, long) { if (!used) { used = true; conduct(r, true); } });
	m.run("mixed", m.scale(2000, 20000), [&](Rng& r, long) { for (int k = 0; k < repeat; ++k) { Rng c = r; conduct(c, false); } });
	return m.done();
}
