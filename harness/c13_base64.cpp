// C13: every base64 decoder returns exactly the encoded bytes, inside exact-size heap blocks.
#include <fastgltf/base64.hpp>
#include <fastgltf/types.hpp>
#include "mon.hpp"
#include <functional>
#include <memory>
namespace fg = fastgltf;
static std::string enc(const std::vector<std::uint8_t>& v) {
	static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o; std::size_t i = 0;
	for (; i + 2 < v.size(); i += 3) { unsigned x = v[i] << 16 | v[i + 1] << 8 | v[i + 2]; o += T[x >> 18]; o += T[x >> 12 & 63]; o += T[x >> 6 & 63]; o += T[x & 63]; }
	if (v.size() - i == 1) { unsigned x = v[i] << 16; o += T[x >> 18]; o += T[x >> 12 & 63]; o += "=="; }
	else if (v.size() - i == 2) { unsigned x = v[i] << 16 | v[i + 1] << 8; o += T[x >> 18]; o += T[x >> 12 & 63]; o += T[x >> 6 & 63]; o += "="; }
	return o;
}
struct Impl { const char* name; std::function<fg::StaticVector<std::uint8_t>(std::string_view)> dec; std::function<void(std::string_view, std::uint8_t*, std::size_t)> in; };
static std::vector<Impl> impls() {
	std::vector<Impl> v;
	v.push_back({ "fallback", fg::base64::fallback_decode, fg::base64::fallback_decode_inplace });
	v.push_back({ "default", fg::base64::decode, fg::base64::decode_inplace });
#if defined(FASTGLTF_IS_X86)
	if (__builtin_cpu_supports("sse4.1")) v.push_back({ "sse4", fg::base64::sse4_decode, fg::base64::sse4_decode_inplace });
	if (__builtin_cpu_supports("avx2")) v.push_back({ "avx2", fg::base64::avx2_decode, fg::base64::avx2_decode_inplace });
#endif
	return v;
}
static void check(Mon& m, const std::vector<Impl>& is, const std::vector<std::uint8_t>& bytes, std::size_t misIn, std::size_t misOut) {
	std::string t = enc(bytes);
	// exact-size heap copy, optionally misaligned: the text ends exactly at the end of the block
	std::unique_ptr<char[]> tb(new char[t.size() + misIn]); std::memcpy(tb.get() + misIn, t.data(), t.size());
	std::string_view sv(tb.get() + misIn, t.size());
	std::size_t pad = (3 - bytes.size() % 3) % 3;
	if (fg::base64::getPadding(sv) != pad) m.viol("getPadding", "getPadding=" + std::to_string(fg::base64::getPadding(sv)) + " for " + t.substr(t.size() > 64 ? t.size() - 64 : 0));
	if (fg::base64::getOutputSize(t.size(), pad) != bytes.size()) m.viol("getOutputSize", "size " + std::to_string(bytes.size()));
	for (auto& im : is) {
		auto r = im.dec(sv);
		if (r.size() != bytes.size() || std::memcmp(r.data(), bytes.data(), bytes.size()) != 0) {
			std::size_t d = 0; while (d < bytes.size() && d < r.size() && r[d] == bytes[d]) ++d;
			m.viol(std::string("decode:") + im.name, "len " + std::to_string(bytes.size()) + " got len " + std::to_string(r.size()) + " first difference at " + std::to_string(d));
		}
		// in place into a block of exactly the decoded size
		std::unique_ptr<std::uint8_t[]> ob(new std::uint8_t[bytes.size() + misOut]); std::memset(ob.get(), 0xEE, bytes.size() + misOut);
		im.in(sv, ob.get() + misOut, pad);
		if (std::memcmp(ob.get() + misOut, bytes.data(), bytes.size()) != 0) m.viol(std::string("inplace:") + im.name, "len " + std::to_string(bytes.size()));
		for (std::size_t i = 0; i < misOut; ++i) if (ob[i] != 0xEE) m.viol(std::string("inplace-before:") + im.name, "len " + std::to_string(bytes.size()));
		// guard bytes after the output (also meaningful without a sanitizer)
		std::vector<std::uint8_t> g(bytes.size() + 64, 0xC7); im.in(sv, g.data(), pad);
		for (std::size_t i = bytes.size(); i < g.size(); ++i) if (g[i] != 0xC7) { m.viol(std::string("inplace-after:") + im.name, "len " + std::to_string(bytes.size()) + " wrote at +" + std::to_string(i - bytes.size())); break; }
		m.count(std::string("decodes_") + im.name, 3);
	}
	if (std::memcmp(tb.get() + misIn, t.data(), t.size()) != 0) m.viol("input-modified", "");
	m.seenBytes(bytes.data(), bytes.size(), misIn * 64 + misOut);
}
int main(int argc, char** argv) {
	Mon m(argc, argv); auto is = impls();
	if (m.shard == 0) { std::string s = "implementations:"; for (auto& i : is) s += std::string(" ") + i.name; m.sample(s); }
	// every length 1..N with several fills and alignments
	m.run("lengths", m.scale(1200, 5000), [&](Rng& r, long i) {
		std::size_t n = static_cast<std::size_t>(i) + 1;
		for (int k = 0; k < 5; ++k) {
			std::vector<std::uint8_t> b(n);
			if (k == 0) for (auto& x : b) x = static_cast<std::uint8_t>(r.next());
			else if (k == 1) for (std::size_t j = 0; j < n; ++j) b[j] = 0xFF;
			else if (k == 2) for (std::size_t j = 0; j < n; ++j) b[j] = 0;
			else if (k == 3) for (std::size_t j = 0; j < n; ++j) b[j] = static_cast<std::uint8_t>(j * 7 + i);
			else for (auto& x : b) x = r.chance(1, 2) ? 0xFB : 0xEF;
			check(m, is, b, k == 0 ? 0 : r.below(33), k == 1 ? 0 : r.below(33));
		}
	});
	// every sextet value in every position of every block of a vector-sized text
	m.run("sextets", 64 * 3, [&](Rng& r, long i) {
		for (std::size_t pos = 0; pos < 136; ++pos) {
			std::size_t nb = 102 - static_cast<std::size_t>(i % 3); std::vector<std::uint8_t> b(nb); for (auto& x : b) x = static_cast<std::uint8_t>(r.next());
			std::size_t bit = pos * 6; unsigned v = static_cast<unsigned>(i / 3);
			for (int k = 0; k < 6; ++k) { std::size_t p = bit + k; if (p / 8 < b.size()) { std::uint8_t mask = 0x80 >> (p % 8); if (v >> (5 - k) & 1) b[p / 8] |= mask; else b[p / 8] &= static_cast<std::uint8_t>(~mask); } }
			check(m, is, b, 0, 0);
		}
	});
	m.run("large", m.scale(24, 200), [&](Rng& r, long) {
		std::vector<std::uint8_t> b(r.range(60000, 400000)); for (auto& x : b) x = static_cast<std::uint8_t>(r.next()); check(m, is, b, r.below(4), r.below(4));
	});
	// text that is not base64: any result, but no access outside text and decoded size
	m.run("garbage", m.scale(3000, 40000), [&](Rng& r, long) {
		std::size_t n = 4 * r.range(1, 64); std::unique_ptr<char[]> t(new char[n]);
		int mode = static_cast<int>(r.below(4));
		for (std::size_t j = 0; j < n; ++j) t[j] = static_cast<char>(mode == 0 ? r.next() & 0xff : mode == 1 ? 0x80 | r.next() : mode == 2 ? (r.chance(1, 4) ? '=' : 'A' + r.below(26)) : '=');
		std::string_view sv(t.get(), n); auto pad = fg::base64::getPadding(sv); auto os = fg::base64::getOutputSize(n, pad);
		if (pad > 2 && n == 4) { /* three or more '=': helper reports 0 or 3 */ }
		for (auto& im : is) { auto d = im.dec(sv); if (d.size() != os) m.viol(std::string("garbage-size:") + im.name, ""); std::unique_ptr<std::uint8_t[]> o(new std::uint8_t[os]); im.in(sv, o.get(), pad); }
		m.seenBytes(sv.data(), n, 99);
	});
	return m.done();
}
