// Persistent driver: runs library operations on request over stdin/stdout frames.
// Frame: u32 argc, then argc times (u32 len, bytes).  Little endian.
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include "dump.hpp"
#include "refs.hpp"
#include "alter.hpp"
#include "oom.hpp"
#include <simdjson.h>
#include <fstream>
#include <iostream>
#include <list>
#include <csignal>
#include <cerrno>
#include <clocale>
#include <cstring>
#include <locale>
#include <sstream>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <dirent.h>
#if __has_include(<sanitizer/lsan_interface.h>) && defined(__SANITIZE_ADDRESS__)
#define HAVE_LSAN 1
#include <sanitizer/lsan_interface.h>
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_LSAN 1
#include <sanitizer/lsan_interface.h>
#endif
#endif

using Args = std::vector<std::string>;

static bool readAll(void* p, std::size_t n) {
	auto* c = static_cast<char*>(p);
	while (n) { ssize_t r = ::read(0, c, n); if (r <= 0) return false; c += r; n -= r; }
	return true;
}
static int outFd = 1;
static void writeAll(const void* p, std::size_t n) {
	auto* c = static_cast<const char*>(p);
	while (n) { ssize_t r = ::write(outFd, c, n); if (r <= 0) _exit(9); c += r; n -= r; }
}
static bool readFrame(Args& a) {
	std::uint32_t n; if (!readAll(&n, 4)) return false;
	a.clear();
	for (std::uint32_t i = 0; i < n; ++i) { std::uint32_t l; if (!readAll(&l, 4)) return false; std::string s(l, 0); if (l && !readAll(s.data(), l)) return false; a.push_back(std::move(s)); }
	return true;
}
static void writeFrame(const Args& a) {
	std::string o; auto put = [&](std::uint32_t v) { o.append(reinterpret_cast<char*>(&v), 4); };
	put(a.size()); for (auto& s : a) { put(s.size()); o += s; }
	writeAll(o.data(), o.size());
}

// ---- callbacks -------------------------------------------------------------
struct CB {
	std::string mapMode = "none"; bool unmap = false, b64 = false, extras = false;
	JW log; bool any = false;
	std::uint64_t nextId = 1; int mapCalls = 0;
	struct Mem { std::byte* p; std::size_t n; };
	std::map<std::uint64_t, Mem> mem;
	std::map<void*, std::uint64_t> byPtr;
	void begin() { log = JW(); log.arr(); }
	std::string end() { log.endarr(); return log.s; }
	void release() { for (auto& [k, m] : mem) delete[] m.p; mem.clear(); byPtr.clear(); }
	~CB() { release(); }
};
static std::list<CB> cbs;
static fg::BufferInfo cbMap(std::uint64_t size, void* u) {
	oom::Disarm quiet;
	auto& c = *static_cast<CB*>(u); int call = c.mapCalls++;
	c.log.elem(); c.log.obj(); c.log.kv("ev", "map"); c.log.kv("size", size);
	bool decline = c.mapMode == "decline" || (c.mapMode == "alt" && call % 2 == 1);
	if (decline || size > (1u << 30)) { c.log.kv("id", 0); c.log.endobj(); return { nullptr, 0 }; }
	auto* p = new std::byte[size]; std::memset(p, 0xA5, size);
	auto id = 1000 + c.nextId++ * 7; c.mem[id] = { p, size }; c.byPtr[p] = id;
	c.log.kv("id", id); c.log.endobj();
	return { p, id };
}
static void cbUnmap(fg::BufferInfo* i, void* u) {
	oom::Disarm quiet;
	auto& c = *static_cast<CB*>(u);
	c.log.elem(); c.log.obj(); c.log.kv("ev", "unmap"); c.log.kv("id", i->customId);
	auto it = c.mem.find(i->customId);
	c.log.kv("match", it != c.mem.end() && it->second.p == i->mappedMemory);
	if (it != c.mem.end()) c.log.kv("bytes", bytesRepr(it->second.p, it->second.n));
	c.log.endobj();
}
static void cbB64(std::string_view b64, std::uint8_t* out, std::size_t padding, std::size_t outSize, void* u) {
	oom::Disarm quiet;
	auto& c = *static_cast<CB*>(u);
	c.log.elem(); c.log.obj(); c.log.kv("ev", "b64"); c.log.kv("text", b64.size() <= 400 ? b64 : std::string_view("")); c.log.kv("len", b64.size());
	c.log.kv("hash", (std::uint64_t)fnv(reinterpret_cast<const std::byte*>(b64.data()), b64.size())); c.log.kv("padding", padding); c.log.kv("out", outSize); c.log.endobj();
	// own simple decoder
	static const auto val = [](unsigned char ch) -> int { if (ch >= 'A' && ch <= 'Z') return ch - 'A'; if (ch >= 'a' && ch <= 'z') return ch - 'a' + 26; if (ch >= '0' && ch <= '9') return ch - '0' + 52; if (ch == '+') return 62; if (ch == '/') return 63; return 0; };
	std::size_t o = 0; std::uint32_t acc = 0; int bits = 0;
	for (unsigned char ch : b64) { if (ch == '=') break; acc = (acc << 6) | val(ch); bits += 6; if (bits >= 8) { bits -= 8; if (o < outSize) out[o++] = (acc >> bits) & 0xff; } }
}
static void cbExtras(simdjson::dom::object* ex, std::size_t idx, fg::Category cat, void* u) {
	oom::Disarm quiet;
	auto& c = *static_cast<CB*>(u);
	c.log.elem(); c.log.obj(); c.log.kv("ev", "extras"); c.log.kv("cat", ev(cat)); c.log.kv("idx", idx);
	c.log.raw("json", simdjson::minify(*ex)); c.log.endobj();
}

// ---- slots -----------------------------------------------------------------
struct ParserSlot { std::unique_ptr<fg::Parser> p; CB* cb; };
static std::map<std::string, ParserSlot> parsers;
static std::map<std::string, fg::Asset> assets;
static std::map<std::string, std::unique_ptr<fg::GltfDataGetter>> getters;
static std::map<std::string, std::unique_ptr<fg::FileExporter>> fexporters;
static std::map<std::string, std::unique_ptr<fg::Exporter>> exporters;
static std::list<std::vector<std::byte>> byteViewOwners;

static std::uint64_t U(const std::string& s) { return std::strtoull(s.c_str(), nullptr, 0); }
static std::map<std::string, std::string> kvs(const std::string& s) {
	std::map<std::string, std::string> r; std::size_t i = 0;
	while (i < s.size()) { auto e = s.find(',', i); if (e == std::string::npos) e = s.size(); auto t = s.substr(i, e - i); auto q = t.find('='); if (q == std::string::npos) r[t] = "1"; else r[t.substr(0, q)] = t.substr(q + 1); i = e + 1; }
	return r;
}
static void applyCb(fg::Parser& p, CB& cb, const std::string& spec) {
	oom::Disarm quiet; auto m = kvs(spec);
	cb.mapMode = m.count("map") ? m["map"] : "none";
	cb.mapCalls = 0;
	p.setUserPointer(&cb);
	p.setBufferAllocationCallback(cb.mapMode == "none" ? nullptr : &cbMap, m.count("unmap") ? &cbUnmap : nullptr);
	p.setBase64DecodeCallback(m.count("b64") ? &cbB64 : nullptr);
	p.setExtrasParseCallback(m.count("extras") ? &cbExtras : nullptr);
}
static std::unique_ptr<fg::GltfDataGetter> openGetter(const std::string& kind, const std::string& data, fg::Error& e) {
	e = fg::Error::None;
	if (kind == "bytes") {
		// exact-size copy so that reads past the source are seen
		std::vector<std::byte> src(data.size()); if (!data.empty()) std::memcpy(src.data(), data.data(), data.size()); src.shrink_to_fit();
		oom::Arm arm; std::byte dummy{}; auto r = fg::GltfDataBuffer::FromBytes(src.empty() ? &dummy : src.data(), src.size());
		if (r.error() != fg::Error::None) { e = r.error(); return nullptr; }
		return std::make_unique<fg::GltfDataBuffer>(std::move(r.get()));
	}
	oom::Arm arm;
	if (kind == "path") { auto r = fg::GltfDataBuffer::FromPath(data); if (r.error() != fg::Error::None) { e = r.error(); return nullptr; } return std::make_unique<fg::GltfDataBuffer>(std::move(r.get())); }
	if (kind == "mapped") { auto r = fg::MappedGltfFile::FromPath(data); if (r.error() != fg::Error::None) { e = r.error(); return nullptr; } return std::make_unique<fg::MappedGltfFile>(std::move(r.get())); }
	if (kind == "stream") { auto s = std::make_unique<fg::GltfFileStream>(data); if (!s->isOpen()) { e = fg::Error::InvalidPath; return nullptr; } return s; }
	std::fprintf(stderr, "bad getter kind\n"); _exit(8);
}

static fg::Asset& A(const std::string& n) { auto it = assets.find(n); if (it == assets.end()) { std::fprintf(stderr, "no asset slot %s\n", n.c_str()); _exit(8); } return it->second; }

static Args opLoad(const Args& a) {
	// parser, asset, getter, mode, options, ext, cats, dir, cbs, data
	CB localCb; fg::Parser* p; CB* cb; std::unique_ptr<fg::Parser> fresh;
	if (a[1].empty()) { oom::Arm arm; fresh = std::make_unique<fg::Parser>(static_cast<fg::Extensions>(U(a[6]))); p = fresh.get(); cb = &localCb; }
	else {
		auto it = parsers.find(a[1]);
		if (it == parsers.end()) { cbs.emplace_back(); it = parsers.emplace(a[1], ParserSlot{ std::make_unique<fg::Parser>(static_cast<fg::Extensions>(U(a[6]))), &cbs.back() }).first; }
		p = it->second.p.get(); cb = it->second.cb;
	}
	cb->begin(); cb->mapCalls = 0; if (a[9] != "keep") applyCb(*p, *cb, a[9]); // "keep": the callbacks of the load before
	std::unique_ptr<fg::GltfDataGetter> own; fg::GltfDataGetter* g;
	if (a[3].rfind("slot:", 0) == 0) { g = getters[a[3].substr(5)].get(); if (!g) _exit(8); }
	else { fg::Error e; own = openGetter(a[3], a[10], e); if (!own) return { "open:" + std::string(errName(e)), "", cb->end() }; g = own.get();
		std::error_code ec; const auto size = a[3] == "bytes" ? a[10].size() : static_cast<std::size_t>(std::filesystem::file_size(a[10], ec)); if (!ec && g->totalSize() != size) return { "opened-with-wrong-size", std::to_string(g->totalSize()), cb->end() }; }
	auto run = [&]() -> fg::Expected<fg::Asset> {
		auto o = static_cast<fg::Options>(U(a[5])); auto c = static_cast<fg::Category>(U(a[7])); std::filesystem::path dir(a[8]); oom::Arm arm;
		if (a[4] == "json") return p->loadGltfJson(*g, std::move(dir), o, c);
		if (a[4] == "glb") return p->loadGltfBinary(*g, std::move(dir), o, c);
		return p->loadGltf(*g, std::move(dir), o, c);
	};
	auto r = run();
	std::string dump;
	if (r.error() == fg::Error::None) {
		dump = dumpAsset(r.get());
		if (!a[2].empty()) { if (assets.count(a[2])) assets[a[2]] = std::move(r.get()); else assets.emplace(a[2], std::move(r.get())); }
	}
	return { errName(r.error()), dump, cb->end() };
}

static std::map<std::size_t, std::string> extrasOut; static bool extrasEnabled = false; static JW* extrasLog = nullptr;
static std::optional<std::string> cbExtrasWrite(std::size_t idx, fg::Category cat, void*) {
	oom::Disarm quiet;
	if (extrasLog) { extrasLog->elem(); extrasLog->arr(); extrasLog->elem(); extrasLog->integer(ev(cat)); extrasLog->first = false; extrasLog->elem(); extrasLog->integer(idx); extrasLog->first = false; extrasLog->endarr(); }
	return "{\"c\":" + std::to_string(ev(cat)) + ",\"i\":" + std::to_string(idx) + "}";
}
template <typename R> static std::string pathsJson(const R& r) {
	JW w; w.obj(); for (int k = 0; k < 2; ++k) { w.key(k ? "images" : "buffers"); w.arr(); for (auto& p : (k ? r.imagePaths : r.bufferPaths)) { w.elem(); if (p) w.str(p->string()); else w.s += "null"; w.first = false; } w.endarr(); } w.endobj(); return w.s;
}

template <typename V> static void pushVals(JW& w, const V& v) {
	if constexpr (std::is_arithmetic_v<V>) { w.elem(); w.num((double)v); w.first = false; }
	else for (std::size_t i = 0; i < v.size(); ++i) { w.elem(); w.num((double)v[i]); w.first = false; }
}
template <typename T> static std::string readAll(const fg::Asset& as, const fg::Accessor& acc, const std::string& mode) {
	JW w; w.arr();
	if (mode == "get") for (std::size_t i = 0; i < acc.count; ++i) pushVals(w, fg::getAccessorElement<T>(as, acc, i));
	else if (mode == "iter") fg::iterateAccessor<T>(as, acc, [&](T v) { pushVals(w, v); });
	else if (mode == "copy") { std::vector<T> o(acc.count); if (acc.count) fg::copyFromAccessor<T>(as, acc, o.data()); for (auto& v : o) pushVals(w, v); }
	w.endarr(); return w.s;
}

struct UriSlot { std::variant<fg::URIView, fg::URI> v; std::shared_ptr<std::string> backing; };
template <typename T> static std::string uriJson(const T& u) {
	JW w; w.obj(); w.kv("string", u.string()); w.kv("scheme", u.scheme()); w.kv("userinfo", u.userinfo()); w.kv("host", u.host()); w.kv("port", u.port()); w.kv("path", u.path()); w.kv("query", u.query()); w.kv("fragment", u.fragment());
	w.kv("valid", u.valid()); w.kv("local", u.isLocalPath()); w.kv("data", u.isDataUri()); w.kv("fspath", u.fspath().string()); w.endobj(); return w.s;
}
static Args opUriSeq(const Args& a) {
	// steps: op,dst,src/text triples; returns JSON of dst after each step
	std::map<std::string, std::unique_ptr<fg::URI>> us; std::map<std::string, std::unique_ptr<fg::URIView>> vs; std::list<std::string> texts;
	Args out{ "ok" };
	for (std::size_t i = 1; i + 2 < a.size(); i += 3) {
		auto& op = a[i]; auto& d = a[i + 1]; auto& s = a[i + 2];
		if (op == "newU") us[d] = std::make_unique<fg::URI>(std::string(s));
		else if (op == "newUsv") { std::string tmp = s; tmp.shrink_to_fit(); us[d] = std::make_unique<fg::URI>(std::string_view(tmp)); }
		else if (op == "emptyU") us[d] = std::make_unique<fg::URI>();
		else if (op == "copyU") { auto n = std::make_unique<fg::URI>(*us[s]); us[d] = std::move(n); }
		else if (op == "moveU") { auto n = std::make_unique<fg::URI>(std::move(*us[s])); us.erase(s); us[d] = std::move(n); }
		else if (op == "asgU") *us[d] = *us[s];
		else if (op == "masgU") { *us[d] = std::move(*us[s]); if (s != d) us.erase(s); }
		else if (op == "asgUV") *us[d] = *vs[s];
		else if (op == "fromV") us[d] = std::make_unique<fg::URI>(*vs[s]);
		else if (op == "delU") { us.erase(d); out.push_back("{}"); continue; }
		else if (op == "newV") { texts.push_back(s); vs[d] = std::make_unique<fg::URIView>(std::string_view(texts.back())); }
		else if (op == "emptyV") vs[d] = std::make_unique<fg::URIView>();
		else if (op == "copyV") vs[d] = std::make_unique<fg::URIView>(*vs[s]);
		else if (op == "asgV") *vs[d] = *vs[s];
		else if (op == "strV") { texts.push_back(s); *vs[d] = std::string_view(texts.back()); }
		else if (op == "viewU") { fg::URIView v = *us[s]; out.push_back(uriJson(v)); continue; }
		else { std::fprintf(stderr, "bad uri op %s\n", op.c_str()); _exit(8); }
		if (op.back() == 'V' && op != "asgUV" && op != "fromV") out.push_back(uriJson(*vs[d])); else out.push_back(uriJson(*us[d]));
	}
	return out;
}

static std::string hx(const std::byte* p, std::size_t n) { return hexbytes(p, n); }
static Args opGetter(const Args& a) {
	// kind, data, program; program items ';' separated: r<N> read into memory, p<N>,<P> span read, s reset, b bytesRead, t totalSize, m move
	fg::Error e; auto g = openGetter(a[1], a[2], e);
	if (!g) return { std::string("open:") + errName(e) };
	Args out{ "ok" }; std::string prog = a[3]; std::size_t i = 0;
	while (i < prog.size()) {
		auto q = prog.find(';', i); if (q == std::string::npos) q = prog.size(); auto t = prog.substr(i, q - i); i = q + 1;
		if (t.empty()) continue;
		if (t[0] == 'r') { auto n = U(t.substr(1)); std::vector<std::byte> b(n + 1); g->read(b.data(), n); out.push_back(hx(b.data(), n)); }
		else if (t[0] == 'p') { auto c = t.find(','); auto n = U(t.substr(1, c - 1)); auto pad = U(t.substr(c + 1)); auto s = g->read(n, pad); if (s.size() < n) out.push_back("short"); else out.push_back(hx(s.data(), n)); }
		else if (t[0] == 's') { g->reset(); out.push_back(""); }
		else if (t[0] == 'b') out.push_back(std::to_string(g->bytesRead()));
		else if (t[0] == 't') out.push_back(std::to_string(g->totalSize()));
		else if (t[0] == 'f') out.push_back(std::to_string((int)fg::determineGltfFileType(*g)));
		else if (t[0] == 'm') {
			if (a[1] == "bytes" || a[1] == "path") { auto& x = static_cast<fg::GltfDataBuffer&>(*g); fg::GltfDataBuffer y(std::move(x)); auto n = std::make_unique<fg::GltfDataBuffer>(); *n = std::move(y); g = std::move(n); }
			else if (a[1] == "mapped") { auto& x = static_cast<fg::MappedGltfFile&>(*g); auto n = std::make_unique<fg::MappedGltfFile>(std::move(x)); g = std::move(n); }
			out.push_back("");
		}
		else if (t[0] == 'o') { // all of it, wherever the position is
			fg::span<std::byte> s(static_cast<std::byte*>(nullptr), 0);
			if (a[1] == "mapped") s = static_cast<fg::span<std::byte>>(static_cast<fg::MappedGltfFile&>(*g)); else s = static_cast<fg::span<std::byte>>(static_cast<fg::GltfDataBuffer&>(*g));
			out.push_back(hx(s.data(), s.size_bytes()));
		}
		else if (t[0] == 'S') { if (a[1] == "mapped") { auto& x = static_cast<fg::MappedGltfFile&>(*g); auto& y = x; x = std::move(y); } else { auto& x = static_cast<fg::GltfDataBuffer&>(*g); auto& y = x; x = std::move(y); } out.push_back(""); }
		else if (t[0] == 'M' && a[1] == "mapped") { // move-assign over an already open mapping
			auto o = fg::MappedGltfFile::FromPath(a[4]); if (o.error() != fg::Error::None) { out.push_back("openfail"); continue; }
			auto n = std::make_unique<fg::MappedGltfFile>(std::move(o.get())); *n = std::move(static_cast<fg::MappedGltfFile&>(*g)); g = std::move(n); out.push_back("");
		}
		else out.push_back("?");
	}
	return out;
}

static Args handle(const Args& a);
static Args opOom(const Args& a) {
	// seed, how many points, folder the operation writes into (or ""), asset slot that must stay as it is (or ""), then the operation
#ifdef FGDRV_OOM
	Args sub(a.begin() + 5, a.end()); const auto& folder = a[3];
	if (!folder.empty() && folder.find("/fgverif-") == std::string::npos) { std::fprintf(stderr, "not a scratch folder\n"); _exit(8); }
	namespace fs = std::filesystem;
	auto clean = [&] { if (!folder.empty()) for (auto& e : fs::directory_iterator(folder)) fs::remove_all(e.path()); };
	auto files = [&] { std::map<std::string, std::string> m; std::string s; if (folder.empty()) return s;
		for (auto& e : fs::recursive_directory_iterator(folder)) if (e.is_regular_file()) { std::ifstream f(e.path(), std::ios::binary); std::stringstream b; b << f.rdbuf(); m[e.path().string()] = b.str(); }
		for (auto& [k, v] : m) { s += k; s += '\0'; s += std::to_string(v.size()); s += ':'; s += v; } return s; };
	auto plain = [&] { clean(); Args r = handle(sub); r.push_back(files()); return r; };
	auto before = a[4].empty() ? std::string() : dumpAsset(A(a[4]));
	const bool io = a[0] == "iof"; auto fds = [] { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; };
	plain(); oom::enabled = true; oom::countdown = iof::countdown = -1; oom::total = 0; iof::log.n = 0; iof::logging = true; Args ref = plain(); oom::enabled = iof::logging = false; // the first run is for what is allocated once
	const long n = io ? static_cast<long>(iof::log.n) : oom::total;
	if (plain() != ref) return { "unstable" };
	std::uint64_t s = U(a[1]); auto next = [&](std::uint64_t m) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return static_cast<long>((s >> 33) % m); };
	std::vector<long> ks; for (long k = 0; k < n; ++k) ks.push_back(k);
	if (io) { ks.clear(); for (long k = 0; k < n; ++k) { const char c = iof::log.names[k]; for (int m = 0; m < (c == 'r' ? 5 : c == 'w' ? 4 : 1); ++m) ks.push_back(k * 8 + m); } }
	while (ks.size() > U(a[2])) ks.erase(ks.begin() + next(ks.size()));
	Args out{ "ok", std::to_string(n), ref[0] };
	for (long k : ks) {
		auto log = fs::temp_directory_path() / ("fgverif-oom-" + std::to_string(::getpid()));
		pid_t pid = ::fork();
		if (pid == 0) {
			{ rlimit c{ 6, 7 }; ::setrlimit(RLIMIT_CPU, &c); } ::alarm(25); ::close(0); ::close(outFd); (void)!::freopen(log.c_str(), "w", stderr); ::setvbuf(stderr, nullptr, _IONBF, 0);
			std::set_terminate([] { ::_exit(42); });
			// 0 exception, 1 reported, 2 not noticed; 20.. something is wrong
			int how; Args got;
			try { clean(); const int open = fds(); oom::enabled = true; oom::hits = iof::hits = 0; if (io) { iof::countdown = k / 8; iof::mode = k % 8; } else oom::countdown = k; got = handle(sub); oom::enabled = false; oom::countdown = iof::countdown = -1; if (fds() != open) ::_exit(26); got.push_back(files()); how = got[0] == "None" || sub[0] == "uriseq" ? 2 : 1; }
			catch (const std::bad_alloc&) { if (io) ::_exit(20); how = 0; }
			catch (const std::exception& e) { std::fprintf(stderr, "%s\n", e.what()); ::_exit(20); }
			catch (...) { ::_exit(20); }
			oom::enabled = false; oom::armed = false; oom::countdown = iof::countdown = -1; iof::stickyFd = -1;
			if (oom::hits + iof::hits == 0) ::_exit(3);
			if (how == 1 && got[0] == "opened-with-wrong-size") { std::fprintf(stderr, "the source counts as open, with %s bytes\n", got[1].c_str()); ::_exit(21); }
			if (how == 2 && got != ref) { for (std::size_t i = 0; i < got.size(); ++i) if (i >= ref.size() || got[i] != ref[i]) { auto d = std::mismatch(got[i].begin(), got[i].end(), ref[i].begin(), ref[i].end()).first - got[i].begin(); std::fprintf(stderr, "part %zu at %ld: %s\nwant %s\n", i, (long)d, got[i].substr(d > 50 ? d - 50 : 0, 300).c_str(), ref[i].substr(d > 50 ? d - 50 : 0, 300).c_str()); } ::_exit(21); }
			if (!a[4].empty() && dumpAsset(A(a[4])) != before) ::_exit(22);
			Args again; try { again = plain(); } catch (...) { ::_exit(23); }
			if (again != ref) { for (std::size_t i = 0; i < again.size(); ++i) if (i >= ref.size() || again[i] != ref[i]) std::fprintf(stderr, "part %zu: %s\nwant %s\n", i, again[i].substr(0, 600).c_str(), ref[i].substr(0, 600).c_str()); ::_exit(24); }
			got = Args(); again = Args(); handle({ "dropall" });
#ifdef HAVE_LSAN
			if (__lsan_do_recoverable_leak_check()) ::_exit(25);
#endif
			::_exit(how);
		}
		int st = 0; if (pid < 0 || ::waitpid(pid, &st, 0) != pid) return { "nofork" };
		int code = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
		out.push_back(io ? std::string(1, iof::log.names[k / 8]) + std::to_string(k % 8) + "@" + std::to_string(k / 8) : std::to_string(k)); out.push_back(std::to_string(code));
		std::string text; if (code > 3 && code != 42) { std::ifstream f(log, std::ios::binary); std::stringstream b; b << f.rdbuf(); text = b.str().substr(0, 12000); }
		out.push_back(text); ::unlink(log.c_str());
		if (code > 3 && code != 42) break;
	}
	clean(); return out;
#else
	std::fprintf(stderr, "not built for this\n"); _exit(8);
#endif
}

// What surrounds the library in a process: none of it may change a result.
static int scribbleByte = -1, presetErrno = 0;
struct Grouped : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\1"; }
	std::string do_truename() const override { return "wahr"; }
	std::string do_falsename() const override { return "falsch"; }
};
static Args opEnv(const Args& a) {
	if (a[1] == "clocale") { auto* n = std::setlocale(LC_ALL, a[2].c_str()); auto* l = std::localeconv(); return { n ? n : "", l->decimal_point }; }
	if (a[1] == "cpplocale") { // "grouped", or a name
#ifdef HAVE_LSAN
		__lsan::ScopedDisabler off; // the C library keeps what it loads
#endif
		try { std::locale::global(a[2] == "grouped" ? std::locale(std::locale::classic(), new Grouped()) : std::locale(a[2].c_str())); } catch (const std::runtime_error&) { return { "" }; }
		std::ostringstream o; o << 12345 << ' ' << 1.5; return { o.str() }; }
	if (a[1] == "show") { char b[40]; std::snprintf(b, sizeof b, "%.2f", .25); std::ostringstream o; o << b << '_' << 1234; return { o.str() }; }
	if (a[1] == "cwd") { return { ::chdir(a[2].c_str()) == 0 ? "ok" : "" }; }
	if (a[1] == "umask") { ::umask(static_cast<mode_t>(U(a[2]))); return { "ok" }; }
	if (a[1] == "scribble") { scribbleByte = static_cast<int>(U(a[2])); return { "ok" }; }
	if (a[1] == "errno") { presetErrno = static_cast<int>(U(a[2])); return { "ok" }; }
	if (a[1] == "churn") { // memory the allocator hands out next held something else before
		std::vector<std::unique_ptr<unsigned char[]>> v; std::uint64_t s = U(a[2]);
		for (int i = 0; i < 400; ++i) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; std::size_t n = 1 + (s >> 40) % 3000; v.emplace_back(new unsigned char[n]); std::memset(v.back().get(), static_cast<int>(s >> 33), n); }
		return { "ok" }; }
	std::fprintf(stderr, "unknown env %s\n", a[1].c_str()); _exit(8);
}
// leaves the stack below the caller filled
#if defined(__clang__)
__attribute__((noinline, no_sanitize("address", "undefined")))
#else
__attribute__((noinline, no_sanitize_address))
#endif
static void scribble(int byte) { volatile unsigned char b[96 * 1024]; for (auto& x : b) x = static_cast<unsigned char>(byte); }

static Args handle(const Args& a) {
	auto& op = a[0];
	if (op == "env") return opEnv(a);
#ifdef FGDRV_WORK
	if (op == "work") { Args o = { std::to_string(work::edges), std::to_string(work::moved), std::to_string(work::allocated), std::to_string(work::peak - work::live) }; work::edges = work::moved = work::allocated = 0; work::peak = work::live; return o; }
#endif
	if (op == "load") return opLoad(a);
	if (op == "dump") return { dumpAsset(A(a[1])) };
	if (op == "drop") { assets.erase(a[1]); return { "ok" }; }
	if (op == "dropall") { assets.clear(); parsers.clear(); cbs.clear(); getters.clear(); exporters.clear(); fexporters.clear(); byteViewOwners.clear(); return { "ok" }; }
	if (op == "dropparser") { parsers.erase(a[1]); return { "ok" }; }
	if (op == "newasset") { assets.erase(a[1]); assets.emplace(std::piecewise_construct, std::forward_as_tuple(a[1]), std::forward_as_tuple()); return { "ok" }; }
	if (op == "moveasset") { // ctor
		fg::Asset t([&]() -> fg::Asset { oom::Arm arm; return fg::Asset(std::move(A(a[1]))); }()); assets.erase(a[1]); assets.erase(a[2]); assets.emplace(a[2], std::move(t)); return { dumpAsset(A(a[2])) }; }
	if (op == "moveassign") { A(a[2]) = std::move(A(a[1])); if (a.size() > 3) assets.erase(a[1]); return { dumpAsset(A(a[2])) }; }
	if (op == "parserto") { auto s = std::move(parsers.at(a[1])); parsers.erase(a[1]); auto it = parsers.find(a[2]); // onto another parser, which may be a used one
		if (it == parsers.end()) { cbs.emplace_back(); it = parsers.emplace(a[2], ParserSlot{ std::make_unique<fg::Parser>(static_cast<fg::Extensions>(U(a[3]))), &cbs.back() }).first; }
		*it->second.p = std::move(*s.p); it->second.cb = s.cb; return { "ok" }; }
	if (op == "moveparser") { auto& s = parsers.at(a[1]); if (a[2] == "ctor") { auto n = std::make_unique<fg::Parser>(std::move(*s.p)); s.p = std::move(n); } else { auto n = std::make_unique<fg::Parser>(static_cast<fg::Extensions>(U(a[3]))); *n = std::move(*s.p); s.p = std::move(n); } return { "ok" }; }
	if (op == "validate") return { errName([&] { oom::Arm arm; return fg::validate(A(a[1])); }()) };
	if (op == "getteropen") { fg::Error e; auto g = openGetter(a[2], a[3], e); if (!g) return { std::string("open:") + errName(e) }; getters[a[1]] = std::move(g); return { "ok" }; }
	if (op == "getter") return opGetter(a);
	if (op == "filetype") { fg::Error e; auto g = openGetter(a[1], a[2], e); if (!g) return { std::string("open:") + errName(e) }; return { std::to_string((int)fg::determineGltfFileType(*g)), std::to_string(g->bytesRead()) }; }
	if (op == "exportjson" || op == "exportglb") {
		// asset, opts, bufpath, imgpath, exporterslot, extras
		std::unique_ptr<fg::Exporter> own; fg::Exporter* x;
		if (a[5].empty()) { oom::Arm arm; own = std::make_unique<fg::Exporter>(); x = own.get(); } else { auto& s = exporters[a[5]]; if (!s) s = std::make_unique<fg::Exporter>(); x = s.get(); }
		x->setBufferPath(a[3]); x->setImagePath(a[4]); x->setExtrasWriteCallback(a[6] == "1" ? &cbExtrasWrite : nullptr); x->setUserPointer(nullptr);
		JW lg; lg.arr(); extrasLog = &lg;
		auto o = static_cast<fg::ExportOptions>(U(a[2]));
		struct Off { ~Off() { extrasLog = nullptr; } } off; auto& as = A(a[1]);
		if (op == "exportjson") { auto r = [&] { oom::Arm arm; return x->writeGltfJson(as, o); }(); lg.endarr(); extrasLog = nullptr; if (r.error() != fg::Error::None) return { errName(r.error()), "", "", lg.s }; return { "None", r.get().output, pathsJson(r.get()), lg.s }; }
		auto r = [&] { oom::Arm arm; return x->writeGltfBinary(as, o); }(); lg.endarr(); extrasLog = nullptr; if (r.error() != fg::Error::None) return { errName(r.error()), "", "", lg.s };
		auto& b = r.get().output; return { "None", std::string(reinterpret_cast<const char*>(b.data()), b.size()), pathsJson(r.get()), lg.s };
	}
	if (op == "filejson" || op == "fileglb") {
		// asset, target, opts, bufpath, imgpath, slot, fsize limit, cwd
		std::unique_ptr<fg::FileExporter> own; fg::FileExporter* x;
		if (a[6].empty()) { oom::Arm arm; own = std::make_unique<fg::FileExporter>(); x = own.get(); } else { auto& s = fexporters[a[6]]; if (!s) s = std::make_unique<fg::FileExporter>(); x = s.get(); }
		x->setBufferPath(a[4]); x->setImagePath(a[5]);
		if (!a[8].empty() && ::chdir(a[8].c_str()) != 0) return { "chdirfail" };
		rlimit old{}; getrlimit(RLIMIT_FSIZE, &old);
		if (!a[7].empty()) { std::signal(SIGXFSZ, SIG_IGN); rlimit n = old; n.rlim_cur = U(a[7]); setrlimit(RLIMIT_FSIZE, &n); }
		auto o = static_cast<fg::ExportOptions>(U(a[3]));
		auto& as = A(a[1]); std::filesystem::path target(a[2]);
		auto e = [&] { oom::Arm arm; return op == "filejson" ? x->writeGltfJson(as, std::move(target), o) : x->writeGltfBinary(as, std::move(target), o); }();
		setrlimit(RLIMIT_FSIZE, &old);
		if (!a[8].empty() && ::chdir("/") != 0) return { "chdirfail" };
		return { errName(e) };
	}
	if (op == "scene") {
		// asset, scene, 16 floats (comma sep hex)
		auto& as = A(a[1]); fg::math::fmat4x4 m(1.f);
		if (a.size() > 3 && !a[3].empty()) { const char* c = a[3].c_str(); for (int i = 0; i < 16; ++i) { char* e; m.col(i / 4)[i % 4] = std::strtof(c, &e); c = *e ? e + 1 : e; } }
		JW w; w.arr();
		oom::Arm arm;
		fg::iterateSceneNodes(as, U(a[2]), m, [&](auto& node, const fg::math::fmat4x4& x) { oom::Disarm quiet;
			w.elem(); w.obj(); w.kv("node", (std::size_t)(&node - as.nodes.data())); w.key("m"); w.arr(); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { w.elem(); w.num(x.col(c)[r]); w.first = false; } w.endarr(); w.endobj();
		});
		w.endarr(); return { w.s };
	}
	if (op == "local") {
		auto& as = A(a[1]); JW w; w.arr();
		for (auto& n : as.nodes) for (int k = 0; k < 2; ++k) {
			fg::math::fmat4x4 base(1.f); base.col(3) = fg::math::fvec4(1.f, 2.f, 3.f, 1.f);
			auto x = k ? fg::getTransformMatrix(n, base) : fg::getTransformMatrix(n); w.elem(); w.arr(); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { w.elem(); w.num(x.col(c)[r]); w.first = false; } w.endarr(); }
		w.endarr(); return { w.s };
	}
	if (op == "readacc") {
		// asset, accessor, mode, dest
		auto& as = A(a[1]); auto& acc = as.accessors.at(U(a[2])); oom::Arm arm;
		if (a[4] == "u32") return { readAll<std::uint32_t>(as, acc, a[3]) };
		if (a[4] == "f") return { readAll<float>(as, acc, a[3]) };
		if (a[4] == "v2") return { readAll<fg::math::fvec2>(as, acc, a[3]) };
		if (a[4] == "v3") return { readAll<fg::math::fvec3>(as, acc, a[3]) };
		if (a[4] == "v4") return { readAll<fg::math::fvec4>(as, acc, a[3]) };
		return { "?" };
	}
	if (op == "uriseq") { oom::Arm arm; return opUriSeq(a); }
	if (op == "decodepercents") { std::string s = a[1]; s.shrink_to_fit(); { oom::Arm arm; fg::URI::decodePercents(s); } return { s }; }
	if (op == "escape") { std::vector<char> exact(a[1].begin(), a[1].end()); exact.shrink_to_fit(); oom::Arm arm; return { fg::escapeString(std::string_view(exact.data(), exact.size())) }; }
	if (op == "pretty") { std::string s = a[1]; { oom::Arm arm; fg::prettyPrintJson(s); } return { s }; }
	if (op == "refs") { auto v = collectRefs(A(a[1])); JW w; w.arr(); for (auto& r : v) { w.elem(); w.obj(); w.kv("p", r.path); w.kv("v", r.get()); w.kv("n", r.limit); w.kv("k", r.kind); w.endobj(); } w.endarr(); return { w.s }; }
	if (op == "poke") { auto v = collectRefs(A(a[1])); for (std::size_t i = 2; i + 1 < a.size(); i += 2) { bool ok = false; for (auto& r : v) if (r.path == a[i]) { r.set(U(a[i + 1])); ok = true; } if (!ok) return { "nopath " + a[i] }; } return { "ok" }; }
	if (op == "pokestr") { auto v = collectStrings(A(a[1])); for (std::size_t i = 2; i + 1 < a.size(); i += 2) { bool ok = false; for (auto& r : v) if (r.path == a[i]) { r.set(a[i + 1]); ok = true; } if (!ok) return { "nopath " + a[i] }; } return { "ok" }; }
	if (op == "alter") { // asset, seed, how many of each name: verdicts of validate for the altered asset, each alteration taken back
		auto& as = A(a[1]); auto v = collectAlterations(as); std::map<std::string, std::vector<std::size_t>> by; for (std::size_t i = 0; i < v.size(); ++i) by[v[i].name].push_back(i);
		std::uint64_t s = U(a[2]); auto next = [&](std::size_t n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return static_cast<std::size_t>((s >> 33) % n); };
		JW w; w.arr();
		for (auto& [n, ix] : by) for (std::uint64_t k = 0; k < U(a[3]) && !ix.empty(); ++k) { auto at = next(ix.size()); auto& x = v[ix[at]]; auto undo = x.apply(); auto e = fg::validate(as); undo(); w.elem(); w.obj(); w.kv("n", n); w.kv("ok", x.ok); w.kv("site", (std::uint64_t)ix[at]); w.kv("of", (std::uint64_t)ix.size()); w.kv("e", std::string(fg::getErrorName(e))); w.endobj(); ix.erase(ix.begin() + at); }
		w.endarr(); return { w.s };
	}
	if (op == "find") { // looks every attribute up by its name, and names nobody has
		auto& as = A(a[1]); std::string bad; std::uint64_t n = 0;
		auto look = [&](const char* what, auto& list, auto&& find, auto&& cfind) {
			std::vector<std::string> names; for (auto& x : list) { std::string s(std::string_view(x.name)); names.push_back(s); names.push_back(s + "0"); names.push_back(s.substr(0, s.size() / 2)); if (!s.empty()) { auto u = s; u[u.size() - 1] ^= 1; names.push_back(u); names.push_back(s.substr(1)); } names.push_back(s + std::string(1, 0)); }
			names.push_back("POSITION"); names.push_back(""); names.push_back("TEXCOORD_0");
			for (auto& s : names) {
				std::size_t want = 0; for (; want < list.size(); ++want) if (std::string_view(list[want].name) == std::string_view(s)) break;
				std::vector<char> exact(s.begin(), s.end()); std::string_view key(exact.data(), exact.size()); ++n; // not null terminated
				auto i = find(key); auto c = cfind(key); if (static_cast<std::size_t>(i - list.begin()) != want || static_cast<std::size_t>(c - list.cbegin()) != want) bad = std::string(what) + " " + s;
			}
		};
		for (auto& m : as.meshes) for (auto& p : m.primitives) {
			const auto& cp = p; look("attribute", p.attributes, [&](std::string_view k) { return p.findAttribute(k); }, [&](std::string_view k) { return cp.findAttribute(k); });
			for (std::size_t t = 0; t < p.targets.size(); ++t) look("target", p.targets[t], [&](std::string_view k) { return p.findTargetAttribute(t, k); }, [&](std::string_view k) { return cp.findTargetAttribute(t, k); });
			if (p.dracoCompression) { auto& d = *p.dracoCompression; const auto& cd = d; look("draco", d.attributes, [&](std::string_view k) { return d.findAttribute(k); }, [&](std::string_view k) { return cd.findAttribute(k); }); }
		}
		for (auto& x : as.nodes) { const auto& cx = x; look("instancing", x.instancingAttributes, [&](std::string_view k) { return x.findInstancingAttribute(k); }, [&](std::string_view k) { return cx.findInstancingAttribute(k); }); }
		return { bad, std::to_string(n) };
	}
	if (op == "source") {
		// asset, buffers|images, idx, newkind
		auto& as = A(a[1]); auto i = U(a[3]); fg::DataSource& ds = a[2] == "buffers" ? as.buffers.at(i).data : as.images.at(i).data;
		std::vector<std::byte> bytes; fg::MimeType mime = fg::MimeType::None;
		std::visit([&](auto& d) { using T = std::decay_t<decltype(d)>; if constexpr (std::is_same_v<T, fg::sources::Array>) { bytes.assign(d.bytes.data(), d.bytes.data() + d.bytes.size()); mime = d.mimeType; } else if constexpr (std::is_same_v<T, fg::sources::Vector> || std::is_same_v<T, fg::sources::ByteView>) { bytes.assign(d.bytes.begin(), d.bytes.end()); mime = d.mimeType; } }, ds);
		if (a.size() > 5) { bytes.clear(); for (char c : a[5]) bytes.push_back(static_cast<std::byte>(c)); bytes.shrink_to_fit(); }
		if (a.size() > 6) mime = static_cast<fg::MimeType>(U(a[6]));
		if (a[4] == "vector") ds = fg::sources::Vector{ std::move(bytes), mime };
		else if (a[4] == "array") { fg::StaticVector<std::byte> sv(bytes.size()); if (!bytes.empty()) std::memcpy(sv.data(), bytes.data(), bytes.size()); ds = fg::sources::Array{ std::move(sv), mime }; }
		else if (a[4] == "byteview") { byteViewOwners.push_back(std::move(bytes)); auto& o = byteViewOwners.back(); ds = fg::sources::ByteView{ fg::span<const std::byte>(o.data(), o.size()), mime }; }
		else if (a[4] == "custom") ds = fg::sources::CustomBuffer{ 77, mime };
		else if (a[4] == "fallback") ds = fg::sources::Fallback{};
		else if (a[4] == "monostate") ds = std::monostate{};
		else if (a[4] == "uri") ds = fg::sources::URI{ 0, fg::URI(std::string_view(a[5])), mime };
		return { "ok" };
	}
	if (op == "addbuffer") { auto& as = A(a[1]); fg::Buffer b; b.byteLength = a[2].size(); std::vector<std::byte> v; for (char c : a[2]) v.push_back((std::byte)c); b.data = fg::sources::Vector{ std::move(v) }; b.name = a[3].c_str(); as.buffers.push_back(std::move(b)); return { "ok" }; }
	if (op == "addimage") { auto& as = A(a[1]); fg::Image b; std::vector<std::byte> v; for (char c : a[2]) v.push_back((std::byte)c); b.data = fg::sources::Vector{ std::move(v), static_cast<fg::MimeType>(U(a[4])) }; b.name = a[3].c_str(); as.images.push_back(std::move(b)); return { "ok" }; }
	if (op == "fds") { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return { std::to_string(n) }; }
	if (op == "maps") { std::ifstream f("/proc/self/maps"); std::string l; int n = 0; while (std::getline(f, l)) n += l.find("/fgverif-") != std::string::npos; return { std::to_string(n) }; }
	if (op == "leak") {
#ifdef HAVE_LSAN
		return { __lsan_do_recoverable_leak_check() ? "leak" : "clean" };
#else
		return { "clean" };
#endif
	}
	if (op == "nofile") { // fill the descriptor table, leaving a[1] free; "off" restores
		static std::vector<int> held; static rlimit old{};
		if (a[1] == "off") { for (int f : held) ::close(f); held.clear(); setrlimit(RLIMIT_NOFILE, &old); return { "ok" }; }
		getrlimit(RLIMIT_NOFILE, &old); rlimit n = old; n.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &n);
		for (int f; (f = ::dup(2)) >= 0;) held.push_back(f);
		for (auto k = U(a[1]); k-- && !held.empty();) { ::close(held.back()); held.pop_back(); }
		return { "ok" };
	}
	if (op == "rss") { std::ifstream f("/proc/self/statm"); long a1, a2; f >> a1 >> a2; return { std::to_string(a2 * 4096) }; }
	if (op == "oom" || op == "iof") return opOom(a);
	if (op == "ping") return { "pong" };
	std::fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(8);
}

int main() {
	// keep stdout private to the protocol
	outFd = dup(1); dup2(2, 1);
	Args a;
	while (readFrame(a)) {
		if (a[0] == "quit") { assets.clear(); parsers.clear(); cbs.clear(); getters.clear(); exporters.clear(); fexporters.clear(); byteViewOwners.clear(); writeFrame({ "bye" }); return 0; }
		Args out;
		if (scribbleByte >= 0) scribble(scribbleByte);
		errno = presetErrno;
		try { out = handle(a); }
		catch (const std::exception& e) { out = { "EXC", e.what() }; }
		catch (...) { out = { "EXC", "unknown" }; }
		writeFrame(out);
	}
	return 0;
}
