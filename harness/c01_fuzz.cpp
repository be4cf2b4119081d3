// C01: coverage-guided fuzzing of load + validate + export + destroy, under ASan/UBSan/LSan with an allocation budget.
// Input: the bytes to load followed by 12 control bytes.
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include "dump.hpp"
#include <simdjson.h>
#include <atomic>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <unordered_set>
#include <unistd.h>
#include <sys/stat.h>
#include <sanitizer/allocator_interface.h>

static constexpr std::size_t CTRL = 12;
static std::map<std::string, std::uint64_t> stats;
static std::unordered_set<std::uint64_t> distinct;
static std::string dir;
static bool noExempt = false;

// ---- allocation budget -----------------------------------------------------------------------------
static bool tracking = false; static std::size_t live = 0, peak = 0;
static void onMalloc(const volatile void*, std::size_t n) { if (tracking) { live += n; if (live > peak) peak = live; } }
static void onFree(const volatile void* p) { if (tracking && p) { auto n = __sanitizer_get_allocated_size(p); live = n > live ? 0 : live - n; } }

static void report() {
	if (const char* f = std::getenv("FG_STATS")) {
		std::ofstream o(f); for (auto& [k, v] : stats) o << "C\t" << k << "\t" << v << "\n"; for (auto h : distinct) o << "D\t" << std::hex << h << std::dec << "\n"; o << "DONE\n";
	}
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
	dir = std::getenv("FG_SCRATCH") ? std::getenv("FG_SCRATCH") : "/nonexistent"; noExempt = std::getenv("FG_NOEXEMPT") != nullptr;
	std::atexit(&report); __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree);
	return 0;
}

static fg::BufferInfo mapCb(std::uint64_t n, void* u) {
	auto& v = *static_cast<std::vector<std::unique_ptr<std::byte[]>>*>(u);
	if (n > (1u << 24) || v.size() % 3 == 2) { v.emplace_back(nullptr); return { nullptr, 0 }; }
	v.emplace_back(new std::byte[n]); return { v.back().get(), v.size() };
}
static void unmapCb(fg::BufferInfo*, void*) {}
static void extrasCb(simdjson::dom::object* o, std::size_t, fg::Category, void*) { if (o) for (auto f : *o) stats["extras_members"] += !f.key.empty(); }
static std::optional<std::string> extrasOutCb(std::size_t i, fg::Category, void*) { return i % 2 ? std::make_optional<std::string>("{}") : std::nullopt; }

[[noreturn]] static void bad(const char* what, const std::string& more) { std::fprintf(stderr, "C01-ORACLE %s %s\n", what, more.c_str()); std::abort(); }

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
	if (size < CTRL + 1) return 0;
	const std::uint8_t* c = data + size - CTRL; const std::size_t n = size - CTRL;
	std::uint64_t ext = 0; for (int i = 0; i < 5; ++i) ext |= std::uint64_t(c[3 + i]) << (8 * i);
	if (c[0] & 0x20) ext = ~0ull >> 24;
	std::uint32_t opts = (c[1] | (c[2] << 8)) & 0x1B3;
	std::uint32_t cats = c[8] | (c[9] << 8) | ((c[10] & 3) << 16); if (c[0] & 0x40) cats = static_cast<std::uint32_t>(fg::Category::All);
	if ((opts & 0x100) && !noExempt) {
		// Known finding: the generated indices follow the stated count of the positions, not the size of the input.
		for (std::size_t i = 0; i < n;) {
			if (!std::isdigit(data[i])) { ++i; continue; }
			auto b = i; while (i < n && std::isdigit(data[i])) ++i;
			if (i - b >= 5 && !(b > 0 && (data[b - 1] == '.' || std::isalpha(data[b - 1]))) && !(i < n && (data[i] == '.' || std::isalpha(data[i])))) { opts &= ~0x100u; ++stats["indices_option_dropped"]; break; }
		}
	}
	std::vector<std::unique_ptr<std::byte[]>> mapped;
	const std::size_t budget = (32u << 20) + 2000 * n;
	live = peak = 0; tracking = true;
	{
		auto configure = [&](fg::Parser& p) {
			if (c[11] & 1) { p.setUserPointer(&mapped); p.setBufferAllocationCallback(&mapCb, (c[11] & 2) ? &unmapCb : nullptr); }
			if (c[11] & 4) p.setExtrasParseCallback(&extrasCb);
		};
		fg::Parser parser(static_cast<fg::Extensions>(ext)); configure(parser);
		for (int round = 0; round < ((c[0] & 4) ? 2 : 1); ++round) {
			std::unique_ptr<fg::GltfDataGetter> g; fg::Error e = fg::Error::None; const int kind = (c[0] >> 3) & 3; std::string file = dir + "/in." + std::to_string(::getpid());
			if (kind == 0 || kind == 1 || !(c[11] & 0x80)) {
				auto r = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(data), n); e = r.error(); if (e == fg::Error::None) g = std::make_unique<fg::GltfDataBuffer>(std::move(r.get())); ++stats["via_bytes"];
			} else {
				{ std::ofstream o(file, std::ios::binary); o.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(n)); }
				if (kind == 2) { if (c[11] & 0x40) { auto s = std::make_unique<fg::GltfFileStream>(file); if (s->isOpen()) g = std::move(s); ++stats["via_stream"]; } else { auto r = fg::GltfDataBuffer::FromPath(file); e = r.error(); if (e == fg::Error::None) g = std::make_unique<fg::GltfDataBuffer>(std::move(r.get())); ++stats["via_path"]; } }
				else { auto r = fg::MappedGltfFile::FromPath(file); e = r.error(); if (e == fg::Error::None) g = std::make_unique<fg::MappedGltfFile>(std::move(r.get())); ++stats["via_mapped"]; }
			}
			if (!g) { ++stats["not_opened"]; break; }
			auto o = static_cast<fg::Options>(opts); auto ct = static_cast<fg::Category>(cats);
			auto r = (c[0] & 3) == 1 ? parser.loadGltfJson(*g, dir, o, ct) : (c[0] & 3) == 2 ? parser.loadGltfBinary(*g, dir, o, ct) : parser.loadGltf(*g, dir, o, ct);
			const std::string err = errName(r.error()); ++stats["load_" + err];
			if (err.rfind("BAD", 0) == 0 || err == "?") bad("unknown-error", err);
			std::uint64_t sig = 1469598103934665603ull; auto mix = [&](std::uint64_t v) { sig = (sig ^ v) * 1099511628211ull; };
			for (char ch : err) mix(static_cast<unsigned char>(ch));
			if (r.error() == fg::Error::None) {
				auto& a = r.get();
				// the bytes the asset owns or views have to be readable
				std::uint64_t sum = 0; auto touch = [&](const fg::DataSource& s) {
					if (auto* x = std::get_if<fg::sources::Array>(&s)) for (auto b : x->bytes) sum += static_cast<unsigned>(b);
					if (auto* x = std::get_if<fg::sources::Vector>(&s)) for (auto b : x->bytes) sum += static_cast<unsigned>(b);
					if (auto* x = std::get_if<fg::sources::ByteView>(&s)) for (auto b : x->bytes) sum += static_cast<unsigned>(b);
				};
				for (auto& b : a.buffers) touch(b.data);
				for (auto& i : a.images) touch(i.data);
				stats["owned_byte_sum"] ^= sum;
				tracking = false; if (c[11] & 8) { Dumper d; auto s = d.dump(a); ++stats["dumped"]; } tracking = true;
				for (auto k : { a.accessors.size(), a.animations.size(), a.buffers.size(), a.bufferViews.size(), a.cameras.size(), a.images.size(), a.lights.size(), a.materials.size(), a.meshes.size(), a.nodes.size(), a.samplers.size(), a.scenes.size(), a.skins.size(), a.textures.size(), a.materialVariants.size() }) mix(k > 3 ? 4 : k);
				auto v = fg::validate(a); ++stats[std::string("validate_") + errName(v)]; mix(static_cast<std::uint64_t>(v));
				if (c[11] & 0x10) {
					fg::Exporter x; x.setBufferPath("b"); x.setImagePath("i"); if (c[11] & 0x20) x.setExtrasWriteCallback(&extrasOutCb);
					auto eo = static_cast<fg::ExportOptions>((c[2] >> 2) & 7);
					if (c[2] & 0x20) { auto w = x.writeGltfJson(a, eo); ++stats[std::string("json_") + errName(w.error())]; mix(w.error() == fg::Error::None ? 77 : 78); }
					else { auto w = x.writeGltfBinary(a, eo); ++stats[std::string("glb_") + errName(w.error())]; mix(w.error() == fg::Error::None ? 79 : 80); }
				}
			}
			distinct.insert(sig);
			if (err == "None" && (c[0] & 0x80)) { auto moved = std::move(r.get()); mix(moved.nodes.size()); g.reset(); }
		}
	}
	tracking = false;
	++stats["inputs"];
	if (peak > budget) bad("memory-budget", "peak " + std::to_string(peak) + " bytes for an input of " + std::to_string(n));
	return 0;
}

// ---- structure-aware mutation ------------------------------------------------------------------------
extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t* data, std::size_t size, std::size_t maxSize);
struct Span { std::size_t b, e; int kind; };   // kind: 0 value in array/root, 1 object member value (b..e is the value), 2 key
static std::size_t scanString(const std::string& s, std::size_t i) { for (++i; i < s.size(); ++i) { if (s[i] == '\\') ++i; else if (s[i] == '"') return i + 1; } return s.size(); }
static void collect(const std::string& s, std::vector<Span>& out) {
	std::vector<std::pair<std::size_t, std::size_t>> st; bool colon = false;
	for (std::size_t i = 0; i < s.size() && out.size() < 20000;) {
		char ch = s[i];
		if (ch == '"') { auto e = scanString(s, i); auto k = e; while (k < s.size() && std::isspace(static_cast<unsigned char>(s[k]))) ++k; if (k < s.size() && s[k] == ':') out.push_back({ i, e, 2 }); else { out.push_back({ i, e, colon }); } colon = false; i = e; }
		else if (ch == ':') { colon = true; ++i; }
		else if (ch == '{' || ch == '[') { st.push_back({ i, out.size() }); out.push_back({ i, s.size(), colon }); colon = false; ++i; }
		else if (ch == '}' || ch == ']') { if (!st.empty()) { out[st.back().second].e = i + 1; st.pop_back(); } ++i; }
		else if (std::isalnum(static_cast<unsigned char>(ch)) || ch == '-') { auto e = i; while (e < s.size() && (std::isalnum(static_cast<unsigned char>(s[e])) || s[e] == '-' || s[e] == '+' || s[e] == '.')) ++e; out.push_back({ i, e, colon }); colon = false; i = e; }
		else ++i;
	}
}
static const char* VALUES[] = { "0", "1", "2", "3", "-1", "4", "252", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "-9223372036854775808", "1e300", "-1e300", "1e400", "1e19", "1e-320", "0.5", "-0.0", "1.0", "null", "true", "false", "\"\"", "\"a\"", "\"\\u0000\"", "\"data:application/octet-stream;base64,AAAA\"", "\"data:;base64,AA=A\"", "\"data:application/gltf-buffer;base64,\"", "\"%zz%4\"", "\"file:///x\"", "\"a.bin\"", "\"..\"", "{}", "[]", "[[]]", "[{}]", "{\"a\":0}", "[0]", "[0,0,0]", "[1e300,0,0,0]", "5120", "5121", "5123", "5125", "5126", "5130", "\"SCALAR\"", "\"VEC3\"", "\"MAT4\"", "\"MAT2\"" };
static std::string mutateJson(std::string s, std::mt19937_64& r) {
	for (int times = 1 + r() % 3; times--;) {
		std::vector<Span> sp; collect(s, sp); if (sp.empty()) return s;
		auto& x = sp[r() % sp.size()]; auto val = [&] { return std::string(VALUES[r() % (sizeof(VALUES) / sizeof(*VALUES))]); };
		switch (r() % 8) {
			case 0: case 1: if (x.kind != 2) s.replace(x.b, x.e - x.b, val()); else { auto& y = sp[r() % sp.size()]; if (y.kind == 2) s.replace(x.b, x.e - x.b, s.substr(y.b, y.e - y.b)); } break;
			case 2: { auto& y = sp[r() % sp.size()]; if (x.kind != 2 && y.kind != 2 && y.e - y.b < 2000) s.replace(x.b, x.e - x.b, s.substr(y.b, y.e - y.b)); break; }
			case 3: { auto b = x.b, e = x.e; if (x.kind == 1) { while (b > 0 && s[b] != ':') --b; while (b > 0 && s[b] != '"') --b; if (b) { --b; while (b > 0 && s[b] != '"') --b; } } if (e < s.size() && s[e] == ',') ++e; else if (b > 0 && s[b - 1] == ',') --b; if (e > b) s.erase(b, e - b); break; }
			case 4: if (x.kind == 0 && x.e - x.b < 500) { std::string t; for (int k = 1 + r() % 6; k--;) t += s.substr(x.b, x.e - x.b) + ","; s.insert(x.b, t); } break;
			case 5: if (s[x.b] == '{') s.insert(x.b + 1, "\"" + std::string(r() % 2 ? "extras" : "extensions") + "\":" + val() + (s[x.b + 1] == '}' ? "" : ",")); else if (s[x.b] == '[') s.insert(x.b + 1, val() + (s[x.b + 1] == ']' ? "" : ",")); break;
			case 6: if (s[x.b] == '"' && x.kind != 2 && r() % 2) { auto p = x.b + 1 + r() % (x.e - x.b); static const char* bits[] = { "%00", "%", "\\u0000", "\\\"", "//", ":", "#", "?", "@", "..", "A", "=", "\\ud800", "\xff", "," }; s.insert(std::min(p, x.e - 1), bits[r() % 15]); } break;
			case 7: if (x.kind == 1) s.replace(x.b, x.e - x.b, r() % 4 ? std::to_string(r() % 12) : val()); break;
		}
	}
	return s;
}
extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t* data, std::size_t size, std::size_t maxSize, unsigned seed) {
	std::mt19937_64 r(seed); if (size < CTRL + 4 || maxSize < size) return LLVMFuzzerMutate(data, size, maxSize);
	auto pick = r() % 10;
	if (pick == 0) { data[size - CTRL + r() % CTRL] = static_cast<std::uint8_t>(r() % 3 ? 1u << (r() % 8) ^ data[size - 1 - r() % CTRL] : r()); return size; }
	if (pick == 1) { std::uint8_t ctl[CTRL]; std::memcpy(ctl, data + size - CTRL, CTRL); auto k = LLVMFuzzerMutate(data, size - CTRL, maxSize - CTRL); std::memcpy(data + k, ctl, CTRL); return k + CTRL; }
	std::string ctl(reinterpret_cast<char*>(data) + size - CTRL, CTRL), body(reinterpret_cast<char*>(data), size - CTRL);
	if (body.compare(0, 4, "glTF") == 0 && body.size() >= 20) {
		auto rd = [&](std::size_t o) { std::uint32_t v; std::memcpy(&v, body.data() + o, 4); return v; }; auto wr = [&](std::size_t o, std::uint32_t v) { std::memcpy(body.data() + o, &v, 4); };
		std::uint32_t jl = std::min<std::uint32_t>(rd(12), static_cast<std::uint32_t>(body.size() - 20));
		if (r() % 6 == 0) { static const std::uint32_t v[] = { 0, 1, 2, 4, 7, 8, 12, 0xffffffff, 0xfffffffc, 0x7fffffff, 0x80000000 }; std::size_t offs[] = { 4, 8, 12, 16, 20u + jl, 24u + jl }; auto o = offs[r() % 6]; if (o + 4 <= body.size()) { auto old = rd(o); wr(o, r() % 2 ? v[r() % 11] : old + static_cast<std::uint32_t>(r() % 9) - 4); } }
		else { auto j = mutateJson(body.substr(20, jl), r); auto rest = body.substr(20 + jl); while (j.size() % 4) j += ' '; body = body.substr(0, 20) + j + rest; if (r() % 8) { wr(12, static_cast<std::uint32_t>(j.size())); wr(8, static_cast<std::uint32_t>(body.size())); } }
	} else body = mutateJson(body, r);
	if (body.size() + CTRL > maxSize) return size;
	std::memcpy(data, body.data(), body.size()); std::memcpy(data + body.size(), ctl.data(), CTRL); return body.size() + CTRL;
}
