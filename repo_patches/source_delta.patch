From 487549de46d63c65efca5b35c410f74d50482709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 001/102] fix: sse4 base64 decoder wrote up to 3 bytes past the
 decoded output

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..4bbad8f 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
-- 
2.43.0


From 034f2c2d0bf1ad863f2d5a9e583774cb6696f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 002/102] fix: base64 lookup table was indexed out of bounds by
 characters above 127

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 4bbad8f..68151cc 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -364,7 +364,7 @@ fg::StaticVector<std::uint8_t> fg::base64::neon_decode(std::string_view encoded)
 
 // clang-format off
 // ASCII value -> base64 value LUT
-static constexpr std::array<std::uint8_t, 128> base64lut = {
+static constexpr std::array<std::uint8_t, 256> base64lut = {
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,62,0,0,0,63,
     52, 53, 54, 55, 56, 57, 58, 59, 60, 61,
     0,0,0,0,0,0,0,
-- 
2.43.0


From daf7daf599186ccc9c95bebaad13a992fc67f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 003/102] fix: URI::decodePercents read past the end of strings
 with a trailing, incomplete escape

---
 src/fastgltf.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4591179..54ad2ab 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -630,15 +630,24 @@ void fg::URI::readjustViews(const URIView& other) {
 }
 
 void fg::URI::decodePercents(std::string& x) noexcept {
-	for (std::size_t i = 0; i < x.size(); ++i) {
-		if (x[i] != '%')
-			continue;
+	const auto hexValue = [](char c) noexcept -> int {
+		if (c >= '0' && c <= '9') return c - '0';
+		if (c >= 'a' && c <= 'f') return c - 'a' + 10;
+		if (c >= 'A' && c <= 'F') return c - 'A' + 10;
+		return -1;
+	};
 
-		// Read the next two chars and store them
-		std::array<char, 3> chars = {x[i + 1], x[i + 2]};
-		x[i] = static_cast<char>(std::strtoul(chars.data(), nullptr, 16));
-		x.erase(i + 1, 2);
+	std::size_t out = 0;
+	for (std::size_t i = 0; i < x.size(); ++i, ++out) {
+		// Only a percent sign followed by two hexadecimal digits is an escape sequence.
+		if (x[i] == '%' && i + 2 < x.size() && hexValue(x[i + 1]) >= 0 && hexValue(x[i + 2]) >= 0) {
+			x[out] = static_cast<char>(hexValue(x[i + 1]) * 16 + hexValue(x[i + 2]));
+			i += 2;
+		} else {
+			x[out] = x[i];
+		}
 	}
+	x.resize(out);
 }
 
 std::string_view fg::URI::string() const noexcept { return uri; }
-- 
2.43.0


From 8729c65776eeebcf1dea1fc74943a1713cdd723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 004/102] fix: URI authority parsing threw or cut off
 characters without a port, a trailing slash, or a host

---
 src/fastgltf.cpp | 51 ++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 54ad2ab..f5b1e80 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -426,8 +426,9 @@ void fg::URIView::parse() {
 	}
 
 	std::size_t idx = 0;
-	auto firstColon = view.find(':');
-	if (firstColon != std::string::npos) {
+	// A colon only ends the scheme when it comes before any other delimiter.
+	auto firstColon = view.find_first_of(":/?#");
+	if (firstColon != std::string::npos && view[firstColon] == ':') {
 		// URI has a scheme.
 		if (firstColon == 0) {
 			// Empty scheme is invalid
@@ -439,40 +440,38 @@ void fg::URIView::parse() {
 	}
 
 	if (startsWith(view.substr(idx), "//")) {
-		// URI has an authority part.
+		// URI has an authority part, which is terminated by the path, query, fragment, or the end of the URI.
 		idx += 2;
-		auto nextSlash = view.find('/', idx);
-		auto userInfo = view.find('@', idx);
-		if (userInfo != std::string::npos && userInfo < nextSlash) {
-			_userinfo = view.substr(idx, userInfo - idx);
-			idx += _userinfo.size() + 1;
+		const auto authorityEnd = std::min(view.find_first_of("/?#", idx), view.size());
+		auto authority = view.substr(idx, authorityEnd - idx);
+
+		auto userInfoEnd = authority.find('@');
+		if (userInfoEnd != std::string::npos) {
+			_userinfo = authority.substr(0, userInfoEnd);
+			authority.remove_prefix(userInfoEnd + 1);
 		}
 
-		auto hostEnd = nextSlash - 1;
-		std::size_t portColon;
-		if (view[idx] == '[') {
-			hostEnd = view.find(']', idx);
+		if (startsWith(authority, "[")) {
+			// IPv6 addresses are made up of colons, so we need to search for the port after its address.
+			auto hostEnd = authority.find(']');
 			if (hostEnd == std::string::npos) {
 				_valid = false;
 				return;
 			}
-			// IPv6 addresses are made up of colons, so we need to search after its address.
-			// This will just be hostEnd + 1 or std::string::npos.
-			portColon = view.find(':', hostEnd);
-		} else {
-			portColon = view.find(':', idx);
-		}
-
-		if (portColon != std::string::npos) {
-			_host = view.substr(idx, portColon - idx);
-			++portColon; // We don't want to include the colon in the port string.
-			_port = view.substr(portColon, nextSlash - portColon);
+			_host = authority.substr(1, hostEnd - 1);
+			authority.remove_prefix(hostEnd + 1);
+			if (startsWith(authority, ":")) {
+				_port = authority.substr(1);
+			}
 		} else {
-			++idx;
-			_host = view.substr(idx, hostEnd - idx);
+			auto portColon = authority.find(':');
+			_host = authority.substr(0, portColon);
+			if (portColon != std::string::npos) {
+				_port = authority.substr(portColon + 1);
+			}
 		}
 
-		idx = nextSlash; // Path includes this slash
+		idx = authorityEnd; // Path includes the slash
 	}
 
 	if (_scheme == "data") {
-- 
2.43.0


From 4c0dbb3e51014cf23c49365c5898249f2024e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 005/102] fix: URI fragment containing a question mark was
 reported as path and query

---
 src/fastgltf.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f5b1e80..f3f5a5e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -480,25 +480,19 @@ void fg::URIView::parse() {
 		// which can be multiple MB.
 		_path = view.substr(idx);
 	} else {
-		// Parse the path.
-		auto questionIdx = view.find('?', idx);
-		auto hashIdx = view.find('#', idx);
+		// Parse the path. The fragment is split off first, as it may contain question marks.
+		auto remaining = view.substr(idx);
+		auto hashIdx = remaining.find('#');
+		if (hashIdx != std::string::npos) {
+			_fragment = remaining.substr(hashIdx + 1);
+			remaining = remaining.substr(0, hashIdx);
+		}
+		auto questionIdx = remaining.find('?');
 		if (questionIdx != std::string::npos) {
-			_path = view.substr(idx, questionIdx - idx);
-
-			if (hashIdx == std::string::npos) {
-				_query = view.substr(++questionIdx);
-			} else {
-				++questionIdx;
-				_query = view.substr(questionIdx, hashIdx - questionIdx);
-				_fragment = view.substr(++hashIdx);
-			}
-		} else if (hashIdx != std::string::npos) {
-			_path = view.substr(idx, hashIdx - idx);
-			_fragment = view.substr(++hashIdx);
-		} else {
-			_path = view.substr(idx);
+			_query = remaining.substr(questionIdx + 1);
+			remaining = remaining.substr(0, questionIdx);
 		}
+		_path = remaining;
 	}
 }
 
-- 
2.43.0


From 249b6c078063b41009419956b8b7636d1bc1f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 006/102] fix: re-assigned URIs kept stale components and
 copies lost their validity

---
 src/fastgltf.cpp | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f3f5a5e..3620db7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -410,12 +410,12 @@ fg::URIView& fg::URIView::operator=(const URIView& other) {
 	_port = other._port;
 	_query = other._query;
 	_fragment = other._fragment;
+	_valid = other._valid;
 	return *this;
 }
 
 fg::URIView& fg::URIView::operator=(std::string_view other) {
-	view = other;
-	parse();
+	*this = URIView(other);
 	return *this;
 }
 
@@ -589,13 +589,12 @@ fg::URI& fg::URI::operator=(const URIView& other) {
 }
 
 fg::URI& fg::URI::operator=(URI&& other) noexcept {
+	if (this == &other)
+		return *this;
+
 	auto* oldData = other.uri.data();
 	uri = std::move(other.uri);
 
-	// Invalidate the previous URI's view.
-	view._valid = other.view._valid;
-	other.view._valid = false;
-
 	if (uri.data() != oldData) {
 		// Allocation changed, we need to readjust views
 		readjustViews(other.view);
@@ -603,6 +602,10 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 		// No reallocation happened, we can safely copy the view.
 		view = other.view;
 	}
+
+	// Invalidate the previous URI's view.
+	other.view = URIView();
+	other.view._valid = false;
 	return *this;
 }
 
@@ -611,15 +614,24 @@ fg::URI::operator fg::URIView() const noexcept {
 }
 
 void fg::URI::readjustViews(const URIView& other) {
-	if (!other._scheme.empty())   { view._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
-	if (!other._path.empty())     { view._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
-	if (!other._userinfo.empty()) { view._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
-	if (!other._host.empty())     { view._host       = std::string_view(uri.data() + (other._host.data()       - other.view.data()), other._host.size()); }
-	if (!other._port.empty())     { view._port       = std::string_view(uri.data() + (other._port.data()       - other.view.data()), other._port.size()); }
-	if (!other._query.empty())    { view._query      = std::string_view(uri.data() + (other._query.data()      - other.view.data()), other._query.size()); }
-	if (!other._fragment.empty()) { view._fragment   = std::string_view(uri.data() + (other._fragment.data()   - other.view.data()), other._fragment.size()); }
-
-	view.view = uri;
+	// Every component is replaced, as components of the previous URI would otherwise be kept.
+	const auto adjust = [&](std::string_view component) -> std::string_view {
+		if (component.empty())
+			return {};
+		return { uri.data() + (component.data() - other.view.data()), component.size() };
+	};
+
+	URIView adjusted;
+	adjusted._scheme   = adjust(other._scheme);
+	adjusted._path     = adjust(other._path);
+	adjusted._userinfo = adjust(other._userinfo);
+	adjusted._host     = adjust(other._host);
+	adjusted._port     = adjust(other._port);
+	adjusted._query    = adjust(other._query);
+	adjusted._fragment = adjust(other._fragment);
+	adjusted._valid    = other._valid;
+	adjusted.view      = uri;
+	view = adjusted;
 }
 
 void fg::URI::decodePercents(std::string& x) noexcept {
-- 
2.43.0


From eadef28868113ec2e631300138c7816f09e35d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 007/102] fix: escaped delimiters in URIs split the decoded
 path

---
 include/fastgltf/types.hpp |  1 +
 src/fastgltf.cpp           | 63 +++++++++++++++++++++++---------------
 src/io.cpp                 |  6 ++--
 3 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4e373bf..6306a78 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1538,6 +1538,7 @@ namespace fastgltf {
 		std::string uri;
 		URIView view;
 
+		void assignDecoded(const URIView& encoded);
 		void readjustViews(const URIView& other);
 
 	public:
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3620db7..3db071d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -535,25 +535,16 @@ bool fg::URIView::isDataUri() const noexcept {
 
 fg::URI::URI() noexcept = default;
 
-fg::URI::URI(std::string uri) noexcept : uri(std::move(uri)) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+fg::URI::URI(std::string uri) noexcept {
+	assignDecoded(URIView(uri));
 }
 
-fg::URI::URI(std::string_view uri) noexcept : uri(uri) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+fg::URI::URI(std::string_view uri) noexcept {
+	assignDecoded(URIView(uri));
 }
 
-fg::URI::URI(const URIView& view) noexcept : uri(view.view) {
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(view);
-	} else {
-		// Reparses the URI string
-		this->view = this->uri;
-	}
+fg::URI::URI(const URIView& view) noexcept {
+	assignDecoded(view);
 }
 
 // Some C++ stdlib implementations copy in some cases when moving strings, which invalidates the
@@ -575,16 +566,7 @@ fg::URI& fg::URI::operator=(const URI& other) {
 }
 
 fg::URI& fg::URI::operator=(const URIView& other) {
-	uri = other.view;
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(other);
-	} else {
-		// We removed some encoded chars, which have now invalidated all the string views.
-		// Therefore, the URI needs to be parsed again.
-		view = this->uri;
-	}
+	assignDecoded(other);
 	return *this;
 }
 
@@ -613,6 +595,37 @@ fg::URI::operator fg::URIView() const noexcept {
 	return view;
 }
 
+void fg::URI::assignDecoded(const URIView& encoded) {
+	// The components have been determined before decoding, since an escaped delimiter is part of
+	// its component. This translates their offsets to those within the decoded string.
+	const auto decodedSize = [&](const char* end) {
+		std::string prefix(encoded.view.data(), static_cast<std::size_t>(end - encoded.view.data()));
+		decodePercents(prefix);
+		return prefix.size();
+	};
+
+	std::string decoded(encoded.view);
+	decodePercents(decoded);
+
+	URIView translated = encoded;
+	translated.view = decoded;
+	if (decoded.size() != encoded.view.size()) {
+		for (auto component : { &URIView::_scheme, &URIView::_path, &URIView::_userinfo, &URIView::_host,
+								&URIView::_port, &URIView::_query, &URIView::_fragment }) {
+			const auto source = encoded.*component;
+			if (source.empty())
+				continue;
+			const auto begin = decodedSize(source.data());
+			translated.*component = std::string_view(decoded).substr(begin, decodedSize(source.data() + source.size()) - begin);
+		}
+	} else {
+		translated.view = encoded.view;
+	}
+
+	uri = std::move(decoded);
+	readjustViews(translated);
+}
+
 void fg::URI::readjustViews(const URIView& other) {
 	// Every component is replaced, as components of the previous URI would otherwise be kept.
 	const auto adjust = [&](std::string_view component) -> std::string_view {
diff --git a/src/io.cpp b/src/io.cpp
index 40a7eb1..46594d3 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -405,7 +405,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) c
 #endif
 
 fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noexcept {
-	URI decodedUri(uri.path()); // Re-allocate so we can decode potential characters.
+	// Re-allocate so we can decode potential characters. The path has already been split from the URI.
+	std::string decodedPath(uri.path());
+	URI::decodePercents(decodedPath);
 	// JSON strings are always in UTF-8, so we can safely always use u8path here.
 	// Since u8path is deprecated with C++20 and newer, u8path is deprecated.
 	// As there is no other proper solution that doesn't do something illegal,
@@ -417,7 +419,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 #pragma warning(push)
 #pragma warning(disable : 4996)
 #endif
-	auto path = directory / fs::u8path(decodedUri.path());
+	auto path = directory / fs::u8path(decodedPath);
 #if defined(__GNUC__) || defined(__clang__)
 #pragma GCC diagnostic pop
 #elif defined(_MSC_VER)
-- 
2.43.0


From 15ca325b814163d1723d3a83f8f6c4595b098ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 008/102] fix: unreadable external files were loaded as
 uninitialised bytes

---
 src/io.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 46594d3..1247b6a 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -447,22 +447,32 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	}
 
 	std::ifstream file(path, std::ios::binary);
+	if (!file.is_open()) {
+		return Error::MissingExternalBuffer;
+	}
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
 		if (info.mappedMemory != nullptr) {
 			const sources::CustomBuffer customBufferSource = { info.customId };
 			file.read(static_cast<char*>(info.mappedMemory), length);
+			const bool complete = file.gcount() == length;
 			if (config.unmapCallback != nullptr) {
 				config.unmapCallback(&info, config.userPointer);
 			}
 
+			if (!complete) {
+				return Error::MissingExternalBuffer;
+			}
 			return { customBufferSource };
 		}
 	}
 
 	StaticVector<std::byte> data(static_cast<std::size_t>(length));
 	file.read(reinterpret_cast<char*>(data.data()), length);
+	if (file.gcount() != length) {
+		return Error::MissingExternalBuffer;
+	}
 	sources::Array arraySource {
 		std::move(data),
 	};
-- 
2.43.0


From c8621d9378c40302728225be38c36fce35120e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 009/102] fix: scenes without a nodes array were dropped

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3db071d..acdcc10 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3957,11 +3957,11 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 
                 scene.nodeIndices.emplace_back(static_cast<std::size_t>(index));
             }
-
-            asset.scenes.emplace_back(std::move(scene));
         } else if (nodeError != Error::MissingField) {
             return nodeError;
         }
+
+        asset.scenes.emplace_back(std::move(scene));
     }
 
 	return Error::None;
-- 
2.43.0


From a220178eca602337d24364b131824cb9e3e9f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 010/102] fix: nodes with morph target weights were rejected

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index acdcc10..340cb2d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3663,7 +3663,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 
         auto weightsError = getJsonArray(nodeObject, "weights", &array);
         if (weightsError != Error::MissingField) {
-            if (weightsError != Error::None) {
+            if (weightsError == Error::None) {
 	            node.weights = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.weights), resourceAllocator.get(), 0);
                 node.weights.reserve(array.size());
                 for (auto weightValue : array) {
-- 
2.43.0


From 70eebae17da4e64b82eb2bbbc4619be5f7693348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 011/102] fix: nodes with a matrix and an extension other than
 KHR_lights_punctual were rejected

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 340cb2d..e0c490d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3766,14 +3766,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
-				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
 					std::uint64_t light;
 					if (auto lightError = lightsObject["light"].get_uint64().get(light); lightError == SUCCESS) FASTGLTF_LIKELY {
 						node.lightIndex = static_cast<std::size_t>(light);
 					} else {
 						return lightError == NO_SUCH_FIELD || lightError == INCORRECT_TYPE ? Error::InvalidGltf : Error::InvalidJson;
 					}
-				} else if (error != NO_SUCH_FIELD) {
+				} else if (lightsError != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
 				}
 			}
-- 
2.43.0


From 46ca35d73aa46d19dd3707348c0164219b066475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 012/102] fix: errors in material extensions were ignored

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e0c490d..526460d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3399,7 +3399,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
         dom::object extensionsObject;
         if (auto extensionError = materialObject["extensions"].get_object().get(extensionsObject); extensionError == SUCCESS) {
-			parseMaterialExtensions(extensionsObject, material);
+			if (auto error = parseMaterialExtensions(extensionsObject, material); error != Error::None) FASTGLTF_UNLIKELY {
+				return error;
+			}
         } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
         }
-- 
2.43.0


From 799948d543f875f19f616c5db14b500e940ac986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 013/102] fix: texture infos inherited members from the
 previously parsed texture

---
 src/fastgltf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 526460d..c42196a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3173,12 +3173,14 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "roughnessMetallicOcclusionTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->roughnessMetallicOcclusionTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "normalTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->normalTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
@@ -3347,13 +3349,15 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 				return Error::InvalidGltf;
 			}
 
-	        TextureInfo textureInfo;
+	        TextureInfo textureInfo = {};
             if (auto error = parseTextureInfo(pbrMetallicRoughness, "baseColorTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
                 pbr.baseColorTexture = std::move(textureInfo);
             } else if (error != Error::MissingField) {
                 return error;
             }
 
+            textureInfo = {};
+
             if (auto error = parseTextureInfo(pbrMetallicRoughness, "metallicRoughnessTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
                 pbr.metallicRoughnessTexture = std::move(textureInfo);
             } else if (error != Error::MissingField) {
-- 
2.43.0


From 4520a90a501d6bf062925a29d47e73c3402da22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 014/102] fix: implicit shapes without parameters were loaded
 as spheres

---
 src/fastgltf.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c42196a..b07f8fa 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4102,6 +4102,19 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 			return Error::InvalidGltf;
 		}
 
+		// The parameters of a shape are all optional, so the type alone decides what kind of shape this is.
+		if (shapeTypeName == "sphere") {
+			shape.emplace<SphereShape>();
+		} else if (shapeTypeName == "box") {
+			shape.emplace<BoxShape>();
+		} else if (shapeTypeName == "capsule") {
+			shape.emplace<CapsuleShape>();
+		} else if (shapeTypeName == "cylinder") {
+			shape.emplace<CylinderShape>();
+		} else FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
+
 		dom::object sphereObject;
 		if (auto error = shapeObject["sphere"].get_object().get(sphereObject); error == SUCCESS) {
 			if (shapeTypeName != "sphere") FASTGLTF_UNLIKELY {
-- 
2.43.0


From ae0918ee4b951dbb3ec3cce2dc423e54e8800d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 015/102] fix: inertiaOrientation of rigid bodies was read
 under the wrong name

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b07f8fa..1fd5426 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4648,7 +4648,7 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 		}
 
 		dom::array inertialOrientationArray;
-		if (error = motionObject["inertialOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
+		if (error = motionObject["inertiaOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
 			if (inertialOrientationArray.size() != 4) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
-- 
2.43.0


From bdda2b9883065f491f851a89bb8edb7e94e9c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 016/102] fix: factor arrays of the wrong length were accepted

---
 src/fastgltf.cpp | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1fd5426..a836445 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -363,6 +363,9 @@ namespace fastgltf {
 
 				dom::array array;
 				if (textureTransform["offset"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -373,6 +376,9 @@ namespace fastgltf {
 				}
 
 				if (textureTransform["scale"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -2906,11 +2912,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseTransmissionColorFactor;
 				if (auto error = diffuseTransmissionObject["diffuseTransmissionColorFactor"].get_array().get(diffuseTransmissionColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseTransmissionColorFactor.size() != diffuseTransmission->diffuseTransmissionColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: diffuseTransmissionColorFactor) {
-						if (i >= diffuseTransmission->diffuseTransmissionColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -2945,11 +2951,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array sheenColorFactor;
 				if (auto error = sheenObject["sheenColorFactor"].get_array().get(sheenColorFactor); error ==
 																									SUCCESS) {
+					if (sheenColorFactor.size() != sheen->sheenColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: sheenColorFactor) {
-						if (i >= sheen->sheenColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3018,11 +3024,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array specularColorFactor;
 				if (auto error = specularObject["specularColorFactor"].get_array().get(specularColorFactor);
 						error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularColorFactor.size() != specular->specularColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: specularColorFactor) {
-						if (i >= specular->specularColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3123,11 +3129,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array attenuationColor;
 				if (auto error = volumeObject["attenuationColor"].get_array().get(attenuationColor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (attenuationColor.size() != volume->attenuationColor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : attenuationColor) {
-						if (i >= volume->attenuationColor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3203,11 +3209,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseFactor;
 				if (auto error = specularGlossinessObject["diffuseFactor"].get_array().get(diffuseFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseFactor.size() != specularGlossiness->diffuseFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : diffuseFactor) {
-						if (i >= specularGlossiness->diffuseFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3227,11 +3233,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array specularFactor;
 				if (auto error = specularGlossinessObject["specularFactor"].get_array().get(specularFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularFactor.size() != specularGlossiness->specularFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : specularFactor) {
-						if (i >= specularGlossiness->specularFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3328,6 +3334,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
             dom::array baseColorFactor;
             if (pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor) == SUCCESS) FASTGLTF_LIKELY {
+                if (baseColorFactor.size() != 4) FASTGLTF_UNLIKELY {
+                    return Error::InvalidGltf;
+                }
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From 7d26a59527912ac493631787f253fbf75914a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:54 +0000
Subject: [PATCH 017/102] fix: getAccessorType misread unknown names and read
 past short ones

---
 include/fastgltf/types.hpp | 41 +++++++++++++-------------------------
 src/fastgltf.cpp           |  3 +++
 2 files changed, 17 insertions(+), 27 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 6306a78..1c4a50e 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -436,7 +436,7 @@ namespace fastgltf {
         return components[index];
     }
 
-    // This order matters as we assume that their glTF constant is ascending to index it.
+    // This order matters as accessorTypeNames lists the names in the same order.
     static constexpr std::array<AccessorType, 7> accessorTypes = {
         AccessorType::Scalar,
         AccessorType::Vec2,
@@ -447,32 +447,6 @@ namespace fastgltf {
         AccessorType::Mat4,
     };
 
-    /**
-     * Gets the AccessorType by its string representation found in glTF files.
-     */
-    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
-        assert(!accessorTypeName.empty());
-        switch (accessorTypeName[0]) {
-            case 'S': return AccessorType::Scalar;
-            case 'V': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 1 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 1];
-            }
-            case 'M': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 4 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 4];
-            }
-        	default:
-        		return AccessorType::Invalid;
-        }
-    }
-
 	static constexpr std::array<std::string_view, 7> accessorTypeNames = {
 		"SCALAR",
 		"VEC2",
@@ -483,6 +457,19 @@ namespace fastgltf {
 		"MAT4"
 	};
 
+    /**
+     * Gets the AccessorType by its string representation found in glTF files.
+     * Returns AccessorType::Invalid for any other string.
+     */
+    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
+        for (std::size_t i = 0; i < accessorTypeNames.size(); ++i) {
+            if (accessorTypeNames[i] == accessorTypeName) {
+                return accessorTypes[i];
+            }
+        }
+        return AccessorType::Invalid;
+    }
+
 	constexpr std::string_view getAccessorTypeName(AccessorType type) noexcept {
     	static_assert(std::is_same_v<std::underlying_type_t<AccessorType>, std::uint8_t>);
 		if (type == AccessorType::Invalid)
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a836445..768cbcf 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1684,6 +1684,9 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             return Error::InvalidGltf;
         }
 		accessor.type = getAccessorType(accessorType);
+		if (accessor.type == AccessorType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 
         std::uint64_t accessorCount;
         if (accessorObject["count"].get_uint64().get(accessorCount) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From c435fab6a8e6d27f046bca5d7d7d6bc310af97ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 018/102] fix: accessors with an unknown component type were
 accepted

---
 src/fastgltf.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 768cbcf..a4bc768 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1671,10 +1671,13 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
         }
 
         std::uint64_t componentType;
-        if (accessorObject["componentType"].get_uint64().get(componentType) != SUCCESS) FASTGLTF_UNLIKELY {
+        if (accessorObject["componentType"].get_uint64().get(componentType) != SUCCESS || componentType > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
 		accessor.componentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(componentType));
+		if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
         if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
             return Error::InvalidGltf;
         }
@@ -1829,10 +1832,14 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
                 return Error::InvalidGltf;
             }
 
-            if (child["componentType"].get_uint64().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
+            if (child["componentType"].get_uint64().get(value) != SUCCESS || value > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
                 return Error::InvalidGltf;
             }
             sparse.indexComponentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(value));
+            // The indices of a sparse accessor can only be one of the three unsigned integer types.
+            if (sparse.indexComponentType != ComponentType::UnsignedByte && sparse.indexComponentType != ComponentType::UnsignedShort && sparse.indexComponentType != ComponentType::UnsignedInt) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
 
             // Accessor Sparse Values
             if (sparseAccessorObject["values"].get_object().get(child) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From bee0d8983d9ca9541579a1b44df2a377d1b90c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:37 +0000
Subject: [PATCH 019/102] fix: animation channels with an unknown target path
 were accepted

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a4bc768..81127c6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1939,6 +1939,8 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
                     channel.path = AnimationPath::Scale;
                 } else if (path == "weights") {
                     channel.path = AnimationPath::Weights;
+                } else FASTGLTF_UNLIKELY {
+                    return Error::InvalidGltf;
                 }
             }
 
-- 
2.43.0


From 913052b87bc8cfe2e9b9af65dea2c748abd5fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 020/102] fix: KHR_lights_punctual without its lights array was
 accepted

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 81127c6..d7b005c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2383,10 +2383,10 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
                     break;
 
                 dom::array lightsArray;
-                if (auto error = extensionObject["lights"].get_array().get(lightsArray); error == SUCCESS) FASTGLTF_LIKELY {
+                if (extensionObject["lights"].get_array().get(lightsArray) == SUCCESS) FASTGLTF_LIKELY {
                     if (auto lightsError = parseLights(lightsArray, asset); lightsError != Error::None)
 						return lightsError;
-                } else if (error != NO_SUCH_FIELD) {
+                } else {
                     return Error::InvalidGltf;
                 }
                 break;
-- 
2.43.0


From 6c46d6f5aa55b032f5aab3eca53dd6b3f36d0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 021/102] fix: physics combine and drive names were only
 compared by their first characters

---
 include/fastgltf/types.hpp | 22 ++++++++--------------
 src/fastgltf.cpp           |  8 +++++++-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 1c4a50e..8146953 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -509,19 +509,13 @@ namespace fastgltf {
 
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 	[[nodiscard]] constexpr auto getCombineMode(const std::string_view name) noexcept {
-		assert(!name.empty());
-	    if(name[0] == 'a') {
+		if (name == "average") {
 			return CombineMode::Average;
-	    }
-
-		switch(name[1]) {
-	    case 'i':
+		} else if (name == "minimum") {
 			return CombineMode::Minimum;
-
-	    case 'a':
+		} else if (name == "maximum") {
 			return CombineMode::Maximum;
-
-	    case 'u':
+		} else if (name == "multiply") {
 			return CombineMode::Multiply;
 		}
 
@@ -542,9 +536,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveType(const std::string_view name) noexcept {
-		if (name[0] == 'l') {
+		if (name == "linear") {
 			return DriveType::Linear;
-		} else if (name[0] == 'a') {
+		} else if (name == "angular") {
 			return DriveType::Angular;
 		} else {
 			return DriveType::Invalid;
@@ -552,9 +546,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveMode(const std::string_view name) noexcept {
-	    if (name[0] == 'f') {
+	    if (name == "force") {
 			return DriveMode::Force;
-	    } else if (name[0] == 'a') {
+	    } else if (name == "acceleration") {
 			return DriveMode::Acceleration;
 	    } else {
 			return DriveMode::Invalid;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d7b005c..aa94c83 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4299,13 +4299,19 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 		std::string_view frictionCombine;
 		if (auto error = materialObject["frictionCombine"].get_string().get(frictionCombine); error == SUCCESS) {
 			material.frictionCombine = getCombineMode(frictionCombine);
+			if (material.frictionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
 		std::string_view restitutionCombine;
 		if (auto error = materialObject["restitutionCombine"].get_string().get(restitutionCombine); error == SUCCESS) {
-		   material.restitutionCombine = getCombineMode(restitutionCombine);
+			material.restitutionCombine = getCombineMode(restitutionCombine);
+			if (material.restitutionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
-- 
2.43.0


From edc002353cedaa336cf63a6fbe9a5f1f29b25e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 022/102] fix: unknown buffer targets, filters, wrap and
 primitive modes were truncated

---
 src/fastgltf.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index aa94c83..9fdd235 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2145,6 +2145,9 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         if (auto error = bufferViewObject["target"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (number != to_underlying(BufferTarget::ArrayBuffer) && number != to_underlying(BufferTarget::ElementArrayBuffer)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             view.target = static_cast<BufferTarget>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
@@ -3580,6 +3583,9 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 
 			std::uint64_t value;
 			if (auto error = primitiveObject["mode"].get_uint64().get(value); error == SUCCESS) FASTGLTF_LIKELY {
+				if (value > to_underlying(PrimitiveType::TriangleFan)) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				primitive.type = static_cast<PrimitiveType>(value);
 			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
@@ -3893,6 +3899,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset& asset) {
     using namespace simdjson;
 
+    const auto isFilter = [](std::uint64_t value) {
+        return value == to_underlying(Filter::Nearest) || value == to_underlying(Filter::Linear) ||
+            (value >= to_underlying(Filter::NearestMipMapNearest) && value <= to_underlying(Filter::LinearMipMapLinear));
+    };
+    const auto isWrap = [](std::uint64_t value) {
+        return value == to_underlying(Wrap::ClampToEdge) || value == to_underlying(Wrap::MirroredRepeat) || value == to_underlying(Wrap::Repeat);
+    };
+
     std::uint64_t number;
     asset.samplers.reserve(samplers.size());
     for (auto samplerValue : samplers) {
@@ -3903,22 +3917,34 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
         }
 
         if (auto error = samplerObject["magFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.magFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
         if (auto error = samplerObject["minFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.minFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
         if (auto error = samplerObject["wrapS"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapS = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
         if (auto error = samplerObject["wrapT"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapT = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
-- 
2.43.0


From 03bd41a836eebb149b35788af864aaca3f4be72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 023/102] fix: asset version was judged by its first character
 only

---
 src/fastgltf.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9fdd235..2e57723 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1497,11 +1497,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		dom::object assetInfo;
 		AssetInfo info = {};
 		auto error = root["asset"].get_object().get(assetInfo);
-		if (error == NO_SUCH_FIELD) {
-			return Error::InvalidOrMissingAssetField;
-		}
 		if (error != SUCCESS) FASTGLTF_UNLIKELY {
-			return Error::InvalidJson;
+			return Error::InvalidOrMissingAssetField;
 		}
 
 		std::string_view version;
@@ -1509,9 +1506,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
-		const auto major = static_cast<std::uint32_t>(version.substr(0, 1)[0] - '0');
-		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
-		if (major != 2U) {
+		// The version is formatted as <major>.<minor>, and any minor version is compatible.
+		if (version.substr(0, version.find('.')) != "2") {
 			return Error::UnsupportedVersion;
 		}
 		info.gltfVersion = std::string { version };
-- 
2.43.0


From c40a4fe79fcf4602658ca0a2353b7e3550acc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 024/102] fix: truncated or inconsistent GLB containers were
 read out of bounds

---
 src/fastgltf.cpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 2e57723..294f96a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4909,17 +4909,17 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
-	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
-	auto header = readBinaryHeader(data);
+	// We'll try and read the magic of a BinaryGltfHeader from the buffer to see if it is correct.
+	// The data might be shorter than that, in which case it can be neither.
 	data.reset();
-	if (header.magic == binaryGltfHeaderMagic) {
+	std::array<std::uint8_t, 4> begin = {};
+	data.read(begin.data(), std::min(begin.size(), data.totalSize()));
+	data.reset();
+	if (std::memcmp(begin.data(), "glTF", begin.size()) == 0) {
 		return GltfType::GLB;
 	}
 
 	// First, check if any of the first four characters is a '{'.
-	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), begin.size());
-	data.reset();
 	for (const auto& i : begin) {
 		if (static_cast<char>(i) == ' ')
 			continue;
@@ -4999,6 +4999,11 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	data.reset();
 
+    // There has to be at least enough data for the header and the JSON chunk's header.
+    if (data.totalSize() < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
+	    return Error::InvalidGLB;
+    }
+
     auto header = readBinaryHeader(data);
     if (header.magic != binaryGltfHeaderMagic) {
 	    return Error::InvalidGLB;
@@ -5006,7 +5011,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 	if (header.version != 2) {
 		return Error::UnsupportedVersion;
 	}
-    if (header.length > data.totalSize()) {
+    if (header.length > data.totalSize() || header.length < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -5014,7 +5019,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     //  1. JSON chunk
     //  2. BIN chunk (optional)
     auto jsonChunk = readBinaryChunk(data);
-    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader)) {
+    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > header.length - data.bytesRead()) {
 	    return Error::InvalidGLB;
     }
 
@@ -5031,19 +5036,22 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     }
 
     // Is there enough room for another chunk header?
-    if (header.length > (data.bytesRead() + sizeof(BinaryGltfChunk))) {
+    bool hasBinaryChunk = false;
+    while (header.length - data.bytesRead() >= sizeof(BinaryGltfChunk)) {
         auto binaryChunk = readBinaryChunk(data);
+		if (binaryChunk.chunkLength > header.length - data.bytesRead()) {
+			return Error::InvalidGLB;
+		}
 
-        if (binaryChunk.chunkType != binaryGltfDataChunkMagic) {
-	        return Error::InvalidGLB;
+        // Chunks with an unknown type have to be ignored.
+        if (binaryChunk.chunkType != binaryGltfDataChunkMagic || hasBinaryChunk) {
+	        [[maybe_unused]] auto skipped = data.read(binaryChunk.chunkLength, 0);
+	        continue;
         }
+        hasBinaryChunk = true;
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
-			if (binaryChunk.chunkLength > data.totalSize() - data.bytesRead()) {
-				return Error::InvalidGLB;
-			}
-
 			if (config.mapCallback != nullptr) {
 				auto info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
 				if (info.mappedMemory != nullptr) {
-- 
2.43.0


From c796b8d629ec5ba035cb2b749a5f2ec86744f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:48 +0000
Subject: [PATCH 025/102] fix: GLB chunk was lost when the map callback
 declined to provide memory

---
 src/fastgltf.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 294f96a..00713b4 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5052,15 +5052,17 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
+			BufferInfo info = {};
 			if (config.mapCallback != nullptr) {
-				auto info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
-				if (info.mappedMemory != nullptr) {
-					data.read(info.mappedMemory, binaryChunk.chunkLength);
-					if (config.unmapCallback != nullptr) {
-						config.unmapCallback(&info, config.userPointer);
-					}
-					glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
+				info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
+			}
+
+			if (info.mappedMemory != nullptr) {
+				data.read(info.mappedMemory, binaryChunk.chunkLength);
+				if (config.unmapCallback != nullptr) {
+					config.unmapCallback(&info, config.userPointer);
 				}
+				glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
 			} else {
 				StaticVector<std::byte> binaryData(binaryChunk.chunkLength);
 				data.read(binaryData.data(), binaryChunk.chunkLength);
-- 
2.43.0


From 2e10e82858653f0cffb7e80c3134a71dd84a23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 026/102] fix: binary chunk of a previously loaded GLB leaked
 into the next load

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 00713b4..b124f9a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4965,6 +4965,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {}; // This might still hold the data of a previously loaded GLB.
 
 #if !defined(__ANDROID__)
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
@@ -4991,6 +4992,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {}; // This might still hold the data of a previously loaded GLB.
 
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
     if (std::error_code ec; hasBit(options, Options::LoadExternalBuffers) && (!fs::is_directory(directory, ec) || ec)) {
-- 
2.43.0


From 24923c944e74399b96b4dab70f49c8a1ca4d3e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 027/102] fix: malformed data URIs were decoded to garbage or
 read out of bounds

---
 src/fastgltf.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b124f9a..933f64d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -704,16 +704,39 @@ bool fg::URI::isDataUri() const noexcept {
 #pragma region glTF parsing
 fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const noexcept {
     auto path = uri.path();
-    auto mimeEnd = path.find(';');
-    auto mime = path.substr(0, mimeEnd);
-
     auto encodingEnd = path.find(',');
-    auto encoding = path.substr(mimeEnd + 1, encodingEnd - mimeEnd - 1);
-    if (encoding != "base64") {
+    if (encodingEnd == std::string_view::npos) {
+		return Error::InvalidURI;
+    }
+
+    // The MIME type might be followed by parameters, but the encoding is always last.
+    constexpr std::string_view base64Encoding = ";base64";
+    auto header = path.substr(0, encodingEnd);
+    if (header.size() < base64Encoding.size() || header.substr(header.size() - base64Encoding.size()) != base64Encoding) {
 		return Error::InvalidURI;
     }
+    auto mime = header.substr(0, header.find(';'));
 
     auto encodedData = path.substr(encodingEnd + 1);
+    if (encodedData.size() % 4 != 0) {
+		return Error::InvalidURI;
+    }
+    if (encodedData.empty()) {
+		return { sources::Array { fg::StaticVector<std::byte>(0), getMimeTypeFromString(mime) } };
+    }
+
+    // The decoders do not check the characters, so anything that isn't base64 has to be rejected here.
+    // A custom decoder can support whatever it wants.
+    if (config.decodeCallback == nullptr) {
+		const auto characters = encodedData.substr(0, encodedData.size() - base64::getPadding(encodedData));
+		const auto isBase64 = [](char c) noexcept {
+			return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
+		};
+		if (!std::all_of(characters.begin(), characters.end(), isBase64)) {
+			return Error::InvalidURI;
+		}
+    }
+
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
         auto padding = base64::getPadding(encodedData);
-- 
2.43.0


From e6b8a916fd592209b0d8eda634e0a31b72fd1b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 028/102] fix: buffers with less data than their byteLength
 were accepted

---
 include/fastgltf/core.hpp |  5 +++--
 src/fastgltf.cpp          | 15 ++++++++++++---
 src/io.cpp                |  7 ++++++-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index f8b29a4..a4bef2c 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -831,6 +831,7 @@ namespace fastgltf {
 
 		ParserInternalConfig config = {};
 		DataSource glbBuffer;
+		std::size_t glbBufferSize = 0;
 #if !FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL
 		std::shared_ptr<std::pmr::monotonic_buffer_resource> resourceAllocator;
 #endif
@@ -843,8 +844,8 @@ namespace fastgltf {
 		template <typename T>
 		Error parseAttributes(simdjson::dom::object& object, T& attributes);
 
-		[[nodiscard]] auto decodeDataUri(const URIView& uri) const noexcept -> Expected<DataSource>;
-		[[nodiscard]] auto loadFileFromUri(URIView& uri) const noexcept -> Expected<DataSource>;
+		[[nodiscard]] auto decodeDataUri(const URIView& uri, std::size_t minimumSize = 0) const noexcept -> Expected<DataSource>;
+		[[nodiscard]] auto loadFileFromUri(URIView& uri, std::size_t minimumSize = 0) const noexcept -> Expected<DataSource>;
 #if defined(__ANDROID__)
 		[[nodiscard]] auto loadFileFromApk(const std::filesystem::path& filepath) const noexcept -> Expected<DataSource>;
 #endif
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 933f64d..0b994d2 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -702,7 +702,7 @@ bool fg::URI::isDataUri() const noexcept {
 #pragma endregion
 
 #pragma region glTF parsing
-fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri, std::size_t minimumSize) const noexcept {
     auto path = uri.path();
     auto encodingEnd = path.find(',');
     if (encodingEnd == std::string_view::npos) {
@@ -721,6 +721,10 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
     if (encodedData.size() % 4 != 0) {
 		return Error::InvalidURI;
     }
+    if (const auto padding = encodedData.empty() ? 0 : base64::getPadding(encodedData); base64::getOutputSize(encodedData.size(), padding) < minimumSize) {
+		// The data is shorter than what the glTF declares.
+		return Error::InvalidGltf;
+    }
     if (encodedData.empty()) {
 		return { sources::Array { fg::StaticVector<std::byte>(0), getMimeTypeFromString(mime) } };
     }
@@ -2075,14 +2079,14 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
             }
 
             if (uriView.isDataUri()) {
-                auto [error, source] = decodeDataUri(uriView);
+                auto [error, source] = decodeDataUri(uriView, buffer.byteLength);
                 if (error != Error::None) {
                     return error;
                 }
 
                 buffer.data = std::move(source);
             } else if (uriView.isLocalPath() && hasBit(options, Options::LoadExternalBuffers)) {
-	            auto [error, source] = loadFileFromUri(uriView);
+	            auto [error, source] = loadFileFromUri(uriView, buffer.byteLength);
                 if (error != Error::None) {
                     return error;
                 }
@@ -2095,6 +2099,9 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
                 buffer.data = std::move(filePath);
             }
         } else if (bufferIndex == 0 && !std::holds_alternative<std::monostate>(glbBuffer)) {
+            if (glbBufferSize < buffer.byteLength) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             buffer.data = std::move(glbBuffer);
         } else if (meshoptCompressionRequired) {
 			// This buffer is not a GLB buffer and has no URI source and is therefore a fallback.
@@ -5077,6 +5084,8 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
+			glbBufferSize = binaryChunk.chunkLength;
+
 			BufferInfo info = {};
 			if (config.mapCallback != nullptr) {
 				info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
diff --git a/src/io.cpp b/src/io.cpp
index 1247b6a..e1ce26d 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -404,7 +404,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) c
 }
 #endif
 
-fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri, std::size_t minimumSize) const noexcept {
 	// Re-allocate so we can decode potential characters. The path has already been split from the URI.
 	std::string decodedPath(uri.path());
 	URI::decodePercents(decodedPath);
@@ -446,6 +446,11 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 		return Error::InvalidURI;
 	}
 
+	// The file needs to provide at least as many bytes as the glTF declares.
+	if (static_cast<std::size_t>(length) < minimumSize) {
+		return Error::MissingExternalBuffer;
+	}
+
 	std::ifstream file(path, std::ios::binary);
 	if (!file.is_open()) {
 		return Error::MissingExternalBuffer;
-- 
2.43.0


From 8e9d9163b8dee9e09be1d98d06764e34cc309da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 029/102] fix: GltfFileStream threw for files that cannot be
 opened and could not be reset

---
 src/io.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index e1ce26d..1a380d6 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -118,8 +118,14 @@ std::size_t fg::GltfDataBuffer::totalSize() {
 	return dataSize;
 }
 
-fg::GltfFileStream::GltfFileStream(const fs::path& path) : fileStream(path, std::ios::binary) {
-	fileSize = fs::file_size(path);
+fg::GltfFileStream::GltfFileStream(const fs::path& path) : fileStream(path, std::ios::binary), fileSize(0) {
+	std::error_code ec;
+	if (const auto size = fs::file_size(path, ec); !ec) {
+		fileSize = static_cast<std::size_t>(size);
+	} else {
+		// This is not something that can be read from, e.g. because it is a directory.
+		fileStream.close();
+	}
 }
 
 bool fg::GltfFileStream::isOpen() const {
@@ -140,10 +146,12 @@ fg::span<std::byte> fg::GltfFileStream::read(std::size_t count, std::size_t padd
 			reinterpret_cast<char*>(buf.data()),
 			static_cast<std::streamsize>(count));
 
-	return span<std::byte>(reinterpret_cast<std::byte*>(buf.data()), buf.size());
+	return span<std::byte>(reinterpret_cast<std::byte*>(buf.data()), count);
 }
 
 void fg::GltfFileStream::reset() {
+	// A previous read past the end would otherwise make every following operation fail.
+	fileStream.clear();
 	fileStream.seekg(0, std::ifstream::beg);
 }
 
-- 
2.43.0


From 2f552d6d656e2d409fefdb8dd2765d4836b50f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 030/102] fix: memory-mapped files were read past their mapping
 and empty files could not be opened

---
 include/fastgltf/core.hpp |  3 +++
 src/io.cpp                | 43 ++++++++++++++++++++++++---------------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index a4bef2c..51e81c2 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -686,6 +686,9 @@ namespace fastgltf {
 		// Windows requires us to keep the file handle alive. Win32 HANDLE is a void*.
 		void* fileHandle = nullptr;
 		void* fileMapping = nullptr;
+#else
+		// The size of the mapping includes the padding required by simdjson.
+		std::size_t mappedSize = 0;
 #endif
 		std::uint64_t fileSize = 0;
 
diff --git a/src/io.cpp b/src/io.cpp
index 1a380d6..9d5028d 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -211,23 +211,29 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 
 	// Get the file size
 	struct stat statInfo {};
-	if (fstat(fd, &statInfo) != 0) {
+	if (fstat(fd, &statInfo) != 0 || !S_ISREG(statInfo.st_mode)) {
 		error = Error::InvalidPath;
+		close(fd);
 		return;
 	}
+	const auto size = static_cast<std::size_t>(statInfo.st_size);
 
-	// Map the file
-	mappedFile = mmap(nullptr,
-					  statInfo.st_size,
-					  PROT_READ,
-					  MAP_PRIVATE,
-					  fd,
-					  0);
+	// simdjson reads past the end of the JSON, but there is nothing mapped after a file whose size is a multiple
+	// of the page size. We therefore reserve enough memory for the padding and place the file at its beginning.
+	// This also covers empty files, which cannot be mapped at all.
+	mappedSize = size + simdjson::SIMDJSON_PADDING;
+	mappedFile = mmap(nullptr, mappedSize, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 	if (mappedFile != MAP_FAILED) {
-		fileSize = static_cast<std::uint64_t>(statInfo.st_size);
-
-		// Hint about map access
-		madvise(mappedFile, fileSize, MADV_SEQUENTIAL);
+		if (size > 0 && mmap(mappedFile, size, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) {
+			munmap(mappedFile, mappedSize);
+			mappedFile = MAP_FAILED;
+			error = Error::FileBufferAllocationFailed;
+		} else {
+			fileSize = static_cast<std::uint64_t>(size);
+
+			// Hint about map access
+			madvise(mappedFile, mappedSize, MADV_SEQUENTIAL);
+		}
 	} else {
 		error = Error::FileBufferAllocationFailed;
 	}
@@ -245,6 +251,7 @@ fg::MappedGltfFile::MappedGltfFile(fastgltf::MappedGltfFile &&other) noexcept {
 #else
 	// Make sure that munmap is never called when other gets destructed.
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
+	mappedSize = other.mappedSize;
 #endif
 	fileSize = other.fileSize;
 	idx = other.idx;
@@ -252,6 +259,9 @@ fg::MappedGltfFile::MappedGltfFile(fastgltf::MappedGltfFile &&other) noexcept {
 }
 
 fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&other) noexcept {
+	if (this == &other)
+		return *this;
+
 #if defined(_WIN32)
 	if (mappedFile != nullptr) {
 		UnmapViewOfFile(mappedFile);
@@ -268,10 +278,11 @@ fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&oth
 	}
 	fileHandle = std::exchange(other.fileHandle, nullptr);
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, mappedSize);
 	}
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
+	mappedSize = other.mappedSize;
 #endif
 	fileSize = other.fileSize;
 	idx = other.idx;
@@ -291,8 +302,8 @@ fg::MappedGltfFile::~MappedGltfFile() noexcept {
 		CloseHandle(fileHandle);
 	}
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, mappedSize);
 	}
 #endif
 }
-- 
2.43.0


From d747d58023afd7ab88938e21ac8364f9d3929e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:18 +0000
Subject: [PATCH 031/102] fix: JSON with more than three leading whitespace
 characters was not recognised

---
 src/fastgltf.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0b994d2..5517bec 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4957,7 +4957,19 @@ fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
 			return GltfType::glTF;
 	}
 
-	return GltfType::Invalid;
+	// Otherwise, the JSON can start with any amount of whitespace.
+	auto type = GltfType::Invalid;
+	for (std::size_t i = 0; i < data.totalSize(); ++i) {
+		char c = 0;
+		data.read(&c, 1);
+		if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
+			continue;
+		if (c == '{')
+			type = GltfType::glTF;
+		break;
+	}
+	data.reset();
+	return type;
 }
 
 fg::Parser::Parser(Extensions extensionsToLoad) noexcept {
-- 
2.43.0


From 6b60bda3112d030a404250103a0fd1adffb5ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:34 +0000
Subject: [PATCH 032/102] fix: GltfDataBuffer exposed uninitialised memory when
 a file could not be read completely

---
 src/io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 9d5028d..789f635 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -63,6 +63,10 @@ fg::GltfDataBuffer::GltfDataBuffer(const fs::path& path) noexcept {
 	if (buffer != nullptr) {
 		// Copy the data and fill the padding region with zeros.
 		file.read(reinterpret_cast<std::ifstream::char_type*>(buffer.get()), static_cast<std::streamsize>(dataSize));
+		if (static_cast<std::size_t>(file.gcount()) != dataSize) {
+			error = Error::InvalidPath;
+			return;
+		}
 		std::memset(buffer.get() + dataSize, 0, allocatedSize - dataSize);
 	} else {
 		error = Error::FileBufferAllocationFailed;
-- 
2.43.0


From 63c46c10cd2979d3c97876403b885eb6ba83fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:32 +0000
Subject: [PATCH 033/102] fix: extras that are not a JSON object made loading
 fail when an extras callback is set

---
 src/fastgltf.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5517bec..982a295 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1887,7 +1887,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 			dom::object extrasObject;
 			if (auto extrasError = accessorObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.accessors.size(), Category::Accessors, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2019,7 +2019,7 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
 			dom::object extrasObject;
 			if (auto extrasError = animationObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.animations.size(), Category::Animations, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2119,7 +2119,7 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
 			dom::object extrasObject;
 			if (auto extrasError = bufferObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.buffers.size(), Category::Buffers, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2277,7 +2277,7 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
 			dom::object extrasObject;
 			if (auto extrasError = bufferViewObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.bufferViews.size(), Category::BufferViews, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2383,7 +2383,7 @@ fg::Error fg::Parser::parseCameras(simdjson::dom::array& cameras, Asset& asset)
 			dom::object extrasObject;
 			if (auto extrasError = cameraObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.cameras.size(), Category::Cameras, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2585,7 +2585,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
 			dom::object extrasObject;
 			if (auto extrasError = imageObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.images.size(), Category::Images, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3464,7 +3464,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 			dom::object extrasObject;
 			if (auto extrasError = materialObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.materials.size(), Category::Materials, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3660,7 +3660,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			dom::object extrasObject;
 			if (auto extrasError = meshObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.meshes.size(), Category::Meshes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3906,7 +3906,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 			dom::object extrasObject;
 			if (auto extrasError = nodeObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.nodes.size(), Category::Nodes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3980,7 +3980,7 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
 			dom::object extrasObject;
 			if (auto extrasError = samplerObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.samplers.size(), Category::Samplers, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4017,7 +4017,7 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 			dom::object extrasObject;
 			if (auto extrasError = sceneObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.scenes.size(), Category::Scenes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4086,7 +4086,7 @@ fg::Error fg::Parser::parseSkins(const simdjson::dom::array& skins, Asset& asset
 			dom::object extrasObject;
 			if (auto extrasError = skinObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.skins.size(), Category::Skins, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4141,7 +4141,7 @@ fg::Error fg::Parser::parseTextures(const simdjson::dom::array& textures, Asset&
 			dom::object extrasObject;
 			if (auto extrasError = textureObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.textures.size(), Category::Textures, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4305,7 +4305,7 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 			dom::object extrasObject;
 			if (auto extrasError = shapeObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.shapes.size() - 1, Category::Shapes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4372,7 +4372,7 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 			dom::object extrasObject;
 			if (auto extrasError = materialObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.physicsMaterials.size() - 1, Category::PhysicsMaterials, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4447,7 +4447,7 @@ fg::Error fg::Parser::parseCollisionFilters(const simdjson::dom::array& collisio
 			dom::object extrasObject;
 			if (auto extrasError = collisionFilterObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.collisionFilters.size() - 1, Category::CollisionFilters, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4650,7 +4650,7 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 			dom::object extrasObject;
 			if (auto extrasError = physicsJointValue["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.physicsJoints.size() - 1, Category::PhysicsJoints, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
-- 
2.43.0


From 4b58c884b5807b188db557a46417d5cfcbc18437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:54 +0000
Subject: [PATCH 034/102] fix: use the column length when constructing a matrix
 from scalars

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2112fa6..51ddc18 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -629,7 +629,7 @@ namespace fastgltf::math {
 
 		template <typename... Args, std::size_t... i>
 		constexpr void copy_values(const std::tuple<Args...>& tuple, std::integer_sequence<std::size_t, i...>) noexcept {
-			(..., (_data[i / M][i % N] = std::get<i>(std::move(tuple))));
+			(..., (_data[i / N][i % N] = std::get<i>(std::move(tuple))));
 		}
 
 	public:
-- 
2.43.0


From ab1a85c51371239795e85156e0483d749a821ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 035/102] fix: compare every column in matrix equality

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 51ddc18..1e0ff12 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -717,7 +717,7 @@ namespace fastgltf::math {
 		}
 
 		[[nodiscard]] constexpr bool operator==(const mat<T, N, M>& other) const noexcept {
-			for (std::size_t i = 0; i < N; ++i)
+			for (std::size_t i = 0; i < M; ++i)
 				if (col(i) != other.col(i))
 					return false;
 			return true;
-- 
2.43.0


From 16260e3848d3f9b7d8c495fad6bb07ebd3afbda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:42 +0000
Subject: [PATCH 036/102] fix: return one component per row from matrix-vector
 products

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 1e0ff12..6252d71 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -740,7 +740,7 @@ namespace fastgltf::math {
 			return ret;
 		}
 		constexpr auto operator*(vec<T, M> other) const noexcept {
-			vec<T, M> ret = col(0) * other[0];
+			vec<T, N> ret = col(0) * other[0];
 			for (std::size_t i = 1; i < columns(); ++i)
 				ret += col(i) * other[i];
 			return ret;
-- 
2.43.0


From 6807c9dab9512386b1a694a521d1435d28a5c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:04 +0000
Subject: [PATCH 037/102] fix: divide in the quaternion division operator

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 6252d71..a339ba4 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -514,7 +514,7 @@ namespace fastgltf::math {
 		}
 
 		constexpr auto operator/(T scalar) const noexcept {
-			return quat<T>(*this) *= scalar;
+			return quat<T>(*this) /= scalar;
 		}
 		constexpr auto operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
-- 
2.43.0


From 4f085a37c3a58e37cb715f978482a8b7fbe06579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 038/102] fix: zero the remaining components of a vector built
 from a short list

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index a339ba4..5e8a4ef 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -133,7 +133,7 @@ namespace fastgltf::math {
 			return *this;
 		}
 
-		constexpr vec(std::initializer_list<T> list) noexcept {
+		constexpr vec(std::initializer_list<T> list) noexcept : _data() {
 			for (auto it = std::begin(list); it != std::end(list); ++it)
 				(*this)[std::distance(std::begin(list), it)] = *it;
 		}
-- 
2.43.0


From 4d38ca5e9aaf2d3711cacad3dd6a289d457d11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:06 +0000
Subject: [PATCH 039/102] fix: keep the identity components when enlarging a
 non-square matrix

---
 include/fastgltf/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 5e8a4ef..b9e02cc 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -663,7 +663,8 @@ namespace fastgltf::math {
 		template <std::size_t Q, std::size_t P, std::enable_if_t<Q < N && P < M, bool> = true>
 		constexpr explicit mat(const mat<T, Q, P>& other) noexcept : mat(T(1)) {
 			for (std::size_t i = 0; i < other.columns(); ++i)
-				(*this).col(i) = vec<T, N>(other.col(i));
+				for (std::size_t j = 0; j < other.rows(); ++j)
+					(*this).col(i)[j] = other.col(i)[j];
 		}
 
 		constexpr mat& operator=(const mat& other) = default;
-- 
2.43.0


From 6eb1926fa57c8379641e3582e603ee1a0757b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:20 +0000
Subject: [PATCH 040/102] fix: give the 32-bit integer vectors their own
 component type

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..406edba 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -152,9 +152,9 @@ template<> struct ElementTraits<math::u16vec2> : ElementTraitsBase<math::u16vec2
 template<> struct ElementTraits<math::u16vec3> : ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t> {};
 template<> struct ElementTraits<math::u16vec4> : ElementTraitsBase<math::u16vec4, AccessorType::Vec4, std::uint16_t> {};
 
-template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int16_t> {};
+template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int32_t> {};
 template<> struct ElementTraits<math::u32vec2> : ElementTraitsBase<math::u32vec2, AccessorType::Vec2, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec3> : ElementTraitsBase<math::u32vec3, AccessorType::Vec3, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec4> : ElementTraitsBase<math::u32vec4, AccessorType::Vec4, std::uint32_t> {};
-- 
2.43.0


From d53abf89e3f597208cd99e03e50000cfc90d4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:26 +0000
Subject: [PATCH 041/102] fix: apply normalization when copying elements from
 an accessor

---
 include/fastgltf/tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 406edba..d765517 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -846,7 +846,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 			*pDest = internal::getAccessorElementAt<ElementType>(
-                    accessor.componentType, &srcBytes[srcStride * i]);
+                    accessor.componentType, &srcBytes[srcStride * i], accessor.normalized);
 		}
 	}
 }
-- 
2.43.0


From 9dc09a9088027993abf643a7b9ef5585bb0d947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 042/102] fix: lay out copied components by their destination
 type

---
 include/fastgltf/tools.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index d765517..8c5b243 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -868,6 +868,13 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	auto elemSize = getElementByteSize(accessor.type, accessor.componentType);
 	auto componentCount = getNumComponents(accessor.type);
 
+	// 5.1.1. accessor.bufferView
+	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros.
+	if (!accessor.bufferViewIndex) {
+		std::memset(dest, 0, sizeof(ComponentType) * componentCount * accessor.count);
+		return;
+	}
+
 	auto& view = asset.bufferViews[*accessor.bufferViewIndex];
 	auto srcStride = view.byteStride.value_or(elemSize);
 
@@ -884,7 +891,7 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	} else {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			for (std::size_t j = 0; j < componentCount; ++j) {
-				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + elemSize * i) + j;
+				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes) + componentCount * i + j;
 				*pDest = internal::getAccessorComponentAt<ComponentType>(
 					accessor.componentType, accessor.type, &srcBytes[i * srcStride], j, accessor.normalized);
 			}
-- 
2.43.0


From f97ed7380c2485f95e96286631adfeb2e74916ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 043/102] fix: search sparse indices without truncating the
 element index

---
 include/fastgltf/tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 8c5b243..5274ca4 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -400,7 +400,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		auto step = count / 2;
 		auto index = resultIndex + step;
 
-		if (deserializeComponent<ElementType>(indices, index) < static_cast<ElementType>(desiredIndex)) {
+		if (static_cast<std::size_t>(deserializeComponent<ElementType>(indices, index)) < desiredIndex) {
 			resultIndex = index + 1;
 			count -= step + 1;
 		} else {
@@ -408,7 +408,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		}
 	}
 
-	return resultIndex < indexCount && deserializeComponent<ElementType>(indices, resultIndex) == static_cast<ElementType>(desiredIndex);
+	return resultIndex < indexCount && static_cast<std::size_t>(deserializeComponent<ElementType>(indices, resultIndex)) == desiredIndex;
 }
 
 // Finds the index of the nearest sparse index to the desired index
-- 
2.43.0


From 4ff8262603497f3a100a94b045c2702d3ac92dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 044/102] fix: zero whole destination elements when copying
 without a buffer view

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 5274ca4..ed183bf 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -806,11 +806,11 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
+			if (TargetStride == sizeof(ElementType)) {
+				std::memset(dest, 0, sizeof(ElementType) * accessor.count);
 			} else {
 				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
+					std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 				}
 			}
 		} else {
-- 
2.43.0


From f6906e8584a668437d641ae759ca13f3e23edc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 045/102] fix: iterate sparse and storage-less accessors
 correctly

---
 include/fastgltf/tools.hpp | 52 +++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index ed183bf..5b71d68 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -491,7 +491,7 @@ public:
 
 	AccessorIterator(const IterableAccessor<ElementType, BufferDataAdapter>* accessor, std::size_t idx = 0)
 			: accessor(accessor), idx(idx) {
-		if (accessor->accessor.sparse.has_value()) {
+		if (accessor->sparseCount > 0) {
 			// Get the first sparse index.
 			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
 			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
@@ -527,20 +527,30 @@ public:
 	}
 
 	[[nodiscard]] ElementType operator*() const noexcept {
-		if (accessor->accessor.sparse.has_value()) {
-			if (idx == nextSparseIndex) {
-				// Get the sparse value for this index
-				auto value = internal::getAccessorElementAt<ElementType>(accessor->componentType,
-																		 &accessor->valuesBytes[accessor->valueStride * sparseIdx],
-																		 accessor->accessor.normalized);
-
-				// Find the next sparse index.
-				++sparseIdx;
-				if (sparseIdx < accessor->sparseCount) {
-					nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-					                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-				}
-				return value;
+		// Skip the sparse indices of all elements before this one, regardless of whether they were dereferenced.
+		while (sparseIdx < accessor->sparseCount && nextSparseIndex < idx) {
+			++sparseIdx;
+			if (sparseIdx < accessor->sparseCount) {
+				nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
+				                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
+			}
+		}
+
+		if (sparseIdx < accessor->sparseCount && nextSparseIndex == idx) {
+			// Get the sparse value for this index
+			return internal::getAccessorElementAt<ElementType>(accessor->componentType,
+			                                                   &accessor->valuesBytes[accessor->valueStride * sparseIdx],
+			                                                   accessor->accessor.normalized);
+		}
+
+		// 5.1.1. accessor.bufferView
+		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+		// property or extensions MAY override zeros with actual values.
+		if (!accessor->accessor.bufferViewIndex) {
+			if constexpr (std::is_aggregate_v<ElementType>) {
+				return ElementType{};
+			} else {
+				return ElementType();
 			}
 		}
 
@@ -562,7 +572,7 @@ class IterableAccessor {
 	const Accessor& accessor;
 
 	span<const std::byte> bufferBytes;
-	std::size_t stride;
+	std::size_t stride = 0;
 	fastgltf::ComponentType componentType;
 
 	// Data needed for sparse accessors
@@ -571,7 +581,7 @@ class IterableAccessor {
 	span<const std::byte> valuesBytes;
 	std::size_t indexStride;
 	std::size_t valueStride;
-	std::size_t sparseCount;
+	std::size_t sparseCount = 0;
 
 public:
 	using iterator = AccessorIterator<ElementType, BufferDataAdapter>;
@@ -580,10 +590,12 @@ public:
 		assert(accessor.type == ElementTraits<ElementType>::type && "The destination type needs to have the same AccessorType as the accessor.");
 		componentType = accessor.componentType;
 
-		const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-		stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
+		if (accessor.bufferViewIndex) {
+			const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
+			stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
 
-		bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+			bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+		}
 
 		if (accessor.sparse.has_value()) {
 			indicesBytes = adapter(asset, accessor.sparse->indicesBufferView).subspan(accessor.sparse->indicesByteOffset);
-- 
2.43.0


From c5b039eb35afcb7883f5d53b05695e1d471086e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 046/102] fix: read zeros, not identity values, from accessors
 without a buffer view

---
 include/fastgltf/tools.hpp | 41 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 5b71d68..7fffd09 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -388,6 +388,24 @@ ElementType getAccessorElementAt(ComponentType componentType, const std::byte* b
 	}
 }
 
+// Constructs an element whose components are all zero, which is not what the default constructors of
+// matrices and quaternions do.
+template <typename ElementType, std::size_t... I>
+constexpr ElementType getZeroElement(std::index_sequence<I...>) {
+	using Component = typename ElementTraits<ElementType>::component_type;
+	if constexpr (std::is_aggregate_v<ElementType>) {
+		return {(static_cast<void>(I), Component(0))...};
+	} else {
+		return ElementType((static_cast<void>(I), Component(0))...);
+	}
+}
+
+template <typename ElementType,
+		typename Seq = std::make_index_sequence<getNumComponents(ElementTraits<ElementType>::type)>>
+constexpr ElementType getZeroElement() {
+	return getZeroElement<ElementType>(Seq{});
+}
+
 // Performs a binary search for the index into the sparse index list whose value matches the desired index
 template <typename ElementType>
 bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size_t desiredIndex,
@@ -547,11 +565,7 @@ public:
 		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 		// property or extensions MAY override zeros with actual values.
 		if (!accessor->accessor.bufferViewIndex) {
-			if constexpr (std::is_aggregate_v<ElementType>) {
-				return ElementType{};
-			} else {
-				return ElementType();
-			}
+			return internal::getZeroElement<ElementType>();
 		}
 
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
@@ -661,11 +675,7 @@ ElementType getAccessorElement(const Asset& asset, const Accessor& accessor, siz
 	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
-		if constexpr (std::is_aggregate_v<ElementType>) {
-			return ElementType{};
-		} else {
-			return ElementType();
-		}
+		return internal::getZeroElement<ElementType>();
 	}
 
 	const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -746,7 +756,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 
 				std::invoke(func, element);
 			} else {
-				std::invoke(func, ElementType {});
+				std::invoke(func, internal::getZeroElement<ElementType>());
 			}
 		}
 
@@ -758,7 +768,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
-			std::invoke(func, ElementType {});
+			std::invoke(func, internal::getZeroElement<ElementType>());
 		}
 	} else {
 		auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -828,12 +838,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		} else {
 			for (std::size_t i = 0; i < accessor.count; ++i) {
 				auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
-
-				if constexpr (std::is_aggregate_v<ElementType>) {
-					*pDest = ElementType {};
-				} else {
-					*pDest = ElementType();
-				}
+				*pDest = internal::getZeroElement<ElementType>();
 			}
 		}
 
-- 
2.43.0


From 8e89834093daf14d774a869de441b36a1933d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 047/102] fix: extract the rotation from its largest quaternion
 component

---
 include/fastgltf/math.hpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index b9e02cc..7a40ae2 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -935,23 +935,27 @@ namespace fastgltf::math {
 		matrix.col(1) /= scale.y();
 		matrix.col(2) /= scale.z();
 
-		// Construct the quaternion. This algo is copied from here:
-		// https://www.euclideanspace.com/maths/geometry/rotations/conversions/matrixToQuaternion/christian.htm.
+		// Construct the quaternion from whichever of its components is largest, as the signs of the other
+		// components are only well-defined in relation to a component that is not close to zero.
 		// glTF orders the components as x,y,z,w
-		rotation = math::fquat(
-			max(.0f, 1.f + matrix[0][0] - matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] + matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] - matrix[1][1] + matrix[2][2]),
-			max(.0f, 1.f + matrix[0][0] + matrix[1][1] + matrix[2][2])
-		);
-		rotation.x() = static_cast<float>(sqrt(static_cast<double>(rotation.x()))) / 2;
-		rotation.y() = static_cast<float>(sqrt(static_cast<double>(rotation.y()))) / 2;
-		rotation.z() = static_cast<float>(sqrt(static_cast<double>(rotation.z()))) / 2;
-		rotation.w() = static_cast<float>(sqrt(static_cast<double>(rotation.w()))) / 2;
-
-		rotation.x() = std::copysignf(rotation.x(), matrix[1][2] - matrix[2][1]);
-		rotation.y() = std::copysignf(rotation.y(), matrix[2][0] - matrix[0][2]);
-		rotation.z() = std::copysignf(rotation.z(), matrix[0][1] - matrix[1][0]);
+		const double m00 = matrix[0][0], m11 = matrix[1][1], m22 = matrix[2][2];
+		const auto make = [](double x, double y, double z, double w) {
+			const auto length = sqrt(x * x + y * y + z * z + w * w);
+			return math::fquat(static_cast<float>(x / length), static_cast<float>(y / length),
+			                   static_cast<float>(z / length), static_cast<float>(w / length));
+		};
+		const double xy = static_cast<double>(matrix[0][1]) + matrix[1][0], wz = static_cast<double>(matrix[0][1]) - matrix[1][0];
+		const double xz = static_cast<double>(matrix[0][2]) + matrix[2][0], wy = static_cast<double>(matrix[2][0]) - matrix[0][2];
+		const double yz = static_cast<double>(matrix[1][2]) + matrix[2][1], wx = static_cast<double>(matrix[1][2]) - matrix[2][1];
+		if (m00 + m11 + m22 > 0.0) {
+			rotation = make(wx, wy, wz, 1.0 + m00 + m11 + m22);
+		} else if (m00 >= m11 && m00 >= m22) {
+			rotation = make(1.0 + m00 - m11 - m22, xy, xz, wx);
+		} else if (m11 >= m22) {
+			rotation = make(xy, 1.0 - m00 + m11 - m22, yz, wy);
+		} else {
+			rotation = make(xz, yz, 1.0 - m00 - m11 + m22, wz);
+		}
 	}
 } // namespace fastgltf::math
 
-- 
2.43.0


From b8c45f5a10f45ea220386b1b1ac032fdc5146ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 048/102] fix: decompose mirroring matrices into a negative
 scale

---
 include/fastgltf/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 7a40ae2..0aec660 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -929,6 +929,10 @@ namespace fastgltf::math {
 			length(matrix.col(2))
 		);
 
+		// A mirrored basis can only be expressed through a negative scale, not through a rotation.
+		if (determinant(fmat3x3(matrix)) < 0.f)
+			scale = -scale;
+
 		// Remove the scaling from the matrix, leaving only the rotation.
 		// matrix is now the rotation matrix.
 		matrix.col(0) /= scale.x();
-- 
2.43.0


From d780e3edb14c28ce57e6b1afe5f65038be92ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 049/102] fix: decompose matrices with a zero scale

---
 include/fastgltf/math.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 0aec660..f471110 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -935,9 +935,29 @@ namespace fastgltf::math {
 
 		// Remove the scaling from the matrix, leaving only the rotation.
 		// matrix is now the rotation matrix.
-		matrix.col(0) /= scale.x();
-		matrix.col(1) /= scale.y();
-		matrix.col(2) /= scale.z();
+		// An axis whose scale is zero carries no rotation, and gets completed from the other axes below.
+		std::size_t zeroAxes = 0, zeroAxis = 0, lastAxis = 0;
+		for (std::size_t i = 0; i < 3; ++i) {
+			if (scale[i] == 0.f) {
+				++zeroAxes;
+				zeroAxis = i;
+			} else {
+				matrix.col(i) /= scale[i];
+				lastAxis = i;
+			}
+		}
+		if (zeroAxes == 3) {
+			matrix = fmat4x4();
+		} else if (zeroAxes == 2) {
+			// Choose any axis perpendicular to the remaining one.
+			const fvec3 axis(matrix.col(lastAxis));
+			const auto other = std::abs(axis.x()) < 0.5f ? fvec3(1.f, 0.f, 0.f) : fvec3(0.f, 1.f, 0.f);
+			matrix.col((lastAxis + 1) % 3) = normalize(cross(axis, other));
+			zeroAxis = (lastAxis + 2) % 3;
+		}
+		if (zeroAxes == 1 || zeroAxes == 2) {
+			matrix.col(zeroAxis) = cross(fvec3(matrix.col((zeroAxis + 1) % 3)), fvec3(matrix.col((zeroAxis + 2) % 3)));
+		}
 
 		// Construct the quaternion from whichever of its components is largest, as the signs of the other
 		// components are only well-defined in relation to a component that is not close to zero.
-- 
2.43.0


From e6adb2ee17505880d5cb79ee0945d2ece76057cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 050/102] fix: SmallVector kept an empty heap block or a stale
 capacity

---
 include/fastgltf/types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 8146953..db00fe8 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -867,7 +867,7 @@ namespace fastgltf {
 			// Destroy all objects in the old allocation
 			std::destroy(begin(), end());
 
-            if (!isUsingStack() && _data && size() != 0) {
+            if (!isUsingStack()) {
 				allocator.deallocate(_data, _capacity);
             }
 
@@ -976,13 +976,13 @@ namespace fastgltf {
 
 		void clear() noexcept {
 			std::destroy(begin(), end());
+			_size = 0;
 
-			if (!isUsingStack() && size() != 0) {
+			if (!isUsingStack()) {
 				allocator.deallocate(_data, _capacity);
 				_data = reinterpret_cast<T*>(storage.data());
+				_capacity = N;
 			}
-
-			_size = 0;
 		}
 
         template <typename... Args>
-- 
2.43.0


From 59d92022ee012b3a18e34bfcb9561baf07bf49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 051/102] fix: SmallVector::shrink_to_fit leaked and assigned
 to raw storage

---
 include/fastgltf/types.hpp | 97 ++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 50 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index db00fe8..be182b0 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -722,6 +722,47 @@ namespace fastgltf {
             }
         }
 
+		// Constructs count objects in the uninitialized memory at result, moving from or copying the given ones.
+		static void transfer(T* first, std::size_t count, T* result) {
+			if constexpr (std::is_nothrow_move_constructible_v<T> || !std::is_copy_constructible_v<T>) {
+				std::uninitialized_move_n(first, count, result);
+			} else {
+				std::uninitialized_copy_n(first, count, result);
+			}
+		}
+
+		// Frees the memory again if constructing objects in it throws.
+		struct AllocationGuard {
+			SmallVector& vector;
+			T* memory;
+			std::size_t capacity;
+
+			~AllocationGuard() {
+				if (memory && memory != reinterpret_cast<T*>(vector.storage.data())) {
+					vector.allocator.deallocate(memory, capacity);
+				}
+			}
+		};
+
+		// Transfers all objects into the given uninitialized memory, and replaces the current memory with it.
+		void relocate(T* memory, std::size_t newCapacity) {
+			AllocationGuard guard { *this, memory, newCapacity };
+			transfer(begin(), size(), memory);
+			guard.memory = nullptr;
+			adopt(memory, newCapacity);
+		}
+
+		// Destroys all objects in the current memory, which have been transferred already, and replaces it.
+		void adopt(T* memory, std::size_t newCapacity) noexcept {
+			std::destroy(begin(), end());
+			if (!isUsingStack()) {
+				allocator.deallocate(_data, _capacity);
+			}
+
+			_data = memory;
+			_capacity = newCapacity;
+		}
+
     public:
 		using iterator = T*;
 		using const_iterator = const T*;
@@ -838,41 +879,10 @@ namespace fastgltf {
                 return;
             }
 
-            // If the new capacity is lower than what we can hold on the stack, we ignore this request.
-            if (newCapacity <= N && isUsingStack()) {
-                _capacity = newCapacity;
-                if (_size > _capacity) {
-                    _size = _capacity;
-                }
-                return;
-            }
-
             // We use geometric growth, similarly to std::vector.
             newCapacity = static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));
 
-			T* alloc = allocator.allocate(newCapacity);
-
-			// Copy/Move the old data into the new memory
-			for (std::size_t i = 0; i < size(); ++i) {
-				auto& x = (*this)[i];
-				if constexpr (std::is_nothrow_move_constructible_v<T>) {
-					new(alloc + i) T(std::move(x));
-				} else if constexpr (std::is_copy_constructible_v<T>) {
-					new(alloc + i) T(x);
-				} else {
-					new(alloc + i) T(std::move(x));
-				}
-			}
-
-			// Destroy all objects in the old allocation
-			std::destroy(begin(), end());
-
-            if (!isUsingStack()) {
-				allocator.deallocate(_data, _capacity);
-            }
-
-            _data = alloc;
-            _capacity = newCapacity;
+			relocate(allocator.allocate(newCapacity), newCapacity);
         }
 
         void resize(std::size_t newSize) {
@@ -927,31 +937,18 @@ namespace fastgltf {
 		}
 
 		void shrink_to_fit() {
-			// Only have to shrink if there's any unused capacity.
-			if (capacity() == size() || size() == 0) {
+			// Only have to shrink if there's any unused capacity on the heap.
+			if (isUsingStack() || capacity() == size()) {
 				return;
 			}
 
-			// If we can use the object's memory again, we'll copy everything over.
+			// If we can use the object's memory again, we'll move everything over.
 			if (size() <= N) {
-				copy(begin(), size(), reinterpret_cast<T*>(storage.data()));
-				_data = reinterpret_cast<T*>(storage.data());
+				relocate(reinterpret_cast<T*>(storage.data()), N);
 			} else {
 				// We have to use heap allocated memory.
-				auto* alloc = allocator.allocate(size());
-				for (std::size_t i = 0; i < size(); ++i) {
-					new(alloc + i) T((*this)[i]);
-				}
-
-				if (_data && !isUsingStack()) {
-					std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-				}
-
-				_data = alloc;
+				relocate(allocator.allocate(size()), size());
 			}
-
-			_capacity = _size;
 		}
 
 		void assign(std::size_t count, const T& value) {
-- 
2.43.0


From 9c88b66aaa638499ddff7c82c761f9f89e4e9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 052/102] fix: moving a SmallVector lost elements, memory and
 the allocator

---
 include/fastgltf/types.hpp | 58 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index be182b0..2580a45 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -763,6 +763,20 @@ namespace fastgltf {
 			_capacity = newCapacity;
 		}
 
+		// Takes over the objects and memory of the other vector, which is empty afterwards.
+		// This vector has to be empty and its allocator has to equal the other's.
+		void take(SmallVector& other) {
+			if (other.isUsingStack()) {
+				transfer(other.begin(), other.size(), begin());
+				_size = other.size();
+				other.clear();
+			} else {
+				_data = std::exchange(other._data, reinterpret_cast<T*>(other.storage.data()));
+				_size = std::exchange(other._size, 0);
+				_capacity = std::exchange(other._capacity, N);
+			}
+		}
+
     public:
 		using iterator = T*;
 		using const_iterator = const T*;
@@ -788,20 +802,8 @@ namespace fastgltf {
             copy(other.begin(), other.size(), begin());
         }
 
-        SmallVector(SmallVector&& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            if (other.isUsingStack()) {
-                if (!other.empty()) {
-                    resize(other.size());
-                    copy(other.begin(), other.size(), begin());
-                    other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
-            } else {
-                _data = std::exchange(other._data, nullptr);
-                _size = std::exchange(other._size, 0);
-                _capacity = std::exchange(other._capacity, N);
-            }
+        SmallVector(SmallVector&& other) noexcept(std::is_nothrow_move_constructible_v<T>) : allocator(std::move(other.allocator)), _data(reinterpret_cast<T*>(storage.data())) {
+			take(other);
         }
 
         SmallVector& operator=(const SmallVector& other) {
@@ -819,21 +821,21 @@ namespace fastgltf {
             return *this;
         }
 
-        SmallVector& operator=(SmallVector&& other) noexcept {
+        SmallVector& operator=(SmallVector&& other) noexcept(std::is_nothrow_move_constructible_v<T>) {
             if (std::addressof(other) != this) {
-                if (other.isUsingStack()) {
-                    if (!other.empty()) {
-                        resize(other.size());
-                        copy(other.begin(), other.size(), begin());
-                        other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                        _size = std::exchange(other._size, 0);
-                        _capacity = std::exchange(other._capacity, N);
-                    }
-                } else {
-                    _data = std::exchange(other._data, nullptr);
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
+				clear();
+				if constexpr (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value) {
+					allocator = std::move(other.allocator);
+					take(other);
+				} else if (std::allocator_traits<Allocator>::is_always_equal::value || allocator == other.allocator) {
+					take(other);
+				} else {
+					// We cannot take over memory which our allocator is not able to free.
+					reserve(other.size());
+					transfer(other.begin(), other.size(), begin());
+					_size = other.size();
+					other.clear();
+				}
             }
             return *this;
         }
-- 
2.43.0


From 5138e0024bb850698c72f6189f7e549a2db1feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 053/102] fix: copying a SmallVector used a wrong capacity and
 allocator

---
 include/fastgltf/types.hpp | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 2580a45..3dfccc5 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -709,18 +709,12 @@ namespace fastgltf {
         T* _data;
         std::size_t _size = 0, _capacity = N;
 
-        void copy(const T* first, std::size_t count, T* result) {
-            if (count > 0) {
-				if constexpr (std::is_trivially_copyable_v<T>) {
-					std::memcpy(result, first, count * sizeof(T));
-				} else {
-					*result++ = *first;
-					for (std::size_t i = 1; i < count; ++i) {
-						*result++ = *++first;
-					}
-				}
-            }
-        }
+		// Constructs copies of the given objects, which are not part of this vector, at the end of this vector.
+		void append(const T* first, std::size_t count) {
+			reserve(_size + count);
+			std::uninitialized_copy_n(first, count, end());
+			_size += count;
+		}
 
 		// Constructs count objects in the uninitialized memory at result, moving from or copying the given ones.
 		static void transfer(T* first, std::size_t count, T* result) {
@@ -797,9 +791,8 @@ namespace fastgltf {
             assign(init);
         }
 
-        SmallVector(const SmallVector& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            resize(other.size());
-            copy(other.begin(), other.size(), begin());
+        SmallVector(const SmallVector& other) : SmallVector(std::allocator_traits<Allocator>::select_on_container_copy_construction(other.allocator)) {
+			append(other.begin(), other.size());
         }
 
         SmallVector(SmallVector&& other) noexcept(std::is_nothrow_move_constructible_v<T>) : allocator(std::move(other.allocator)), _data(reinterpret_cast<T*>(storage.data())) {
@@ -808,15 +801,11 @@ namespace fastgltf {
 
         SmallVector& operator=(const SmallVector& other) {
             if (std::addressof(other) != this) {
-                if (!isUsingStack() && _data) {
-	                std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-                    _data = reinterpret_cast<T*>(storage.data());
-                    _size = _capacity = 0;
-                }
-
-                resize(other.size());
-                copy(other.begin(), other.size(), begin());
+				clear();
+				if constexpr (std::allocator_traits<Allocator>::propagate_on_container_copy_assignment::value) {
+					allocator = other.allocator;
+				}
+				append(other.begin(), other.size());
             }
             return *this;
         }
-- 
2.43.0


From c7271037acbc0fa8d4d78081127fd96477fe88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 054/102] fix: SmallVector read arguments that it had already
 destroyed

---
 include/fastgltf/types.hpp | 62 ++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 3dfccc5..4f13a21 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -738,6 +738,22 @@ namespace fastgltf {
 			}
 		};
 
+		// Destroys the object again if transferring the others throws.
+		struct ElementGuard {
+			T* object;
+
+			~ElementGuard() {
+				if (object) {
+					std::destroy_at(object);
+				}
+			}
+		};
+
+		// We use geometric growth, similarly to std::vector.
+		static std::size_t growth(std::size_t capacity) {
+			return static_cast<std::size_t>(1) << (std::numeric_limits<std::size_t>::digits - clz(capacity));
+		}
+
 		// Transfers all objects into the given uninitialized memory, and replaces the current memory with it.
 		void relocate(T* memory, std::size_t newCapacity) {
 			AllocationGuard guard { *this, memory, newCapacity };
@@ -870,9 +886,7 @@ namespace fastgltf {
                 return;
             }
 
-            // We use geometric growth, similarly to std::vector.
-            newCapacity = static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));
-
+			newCapacity = growth(newCapacity);
 			relocate(allocator.allocate(newCapacity), newCapacity);
         }
 
@@ -906,25 +920,16 @@ namespace fastgltf {
 			if (newSize < size()) {
 				// Just destroy the "overflowing" elements.
 				std::destroy(begin() + newSize, end());
+				_size = newSize;
 			} else {
-				// Reserve enough capacity and copy the new value over.
-				auto oldSize = _size;
+				// The value might be part of this vector, in which case growing would destroy it.
+				const T copy(value);
 				reserve(newSize);
-				for (auto it = begin() + oldSize; it != begin() + newSize; ++it) {
-					if (it == nullptr)
-						break;
-
-					if constexpr (std::is_move_constructible_v<T>) {
-						new (it) T(std::move(value));
-					} else if constexpr (std::is_trivially_copyable_v<T>) {
-						std::memcpy(it, std::addressof(value), sizeof(T));
-					} else {
-						new (it) T(value);
-					}
+				while (_size < newSize) {
+					new (static_cast<void*>(end())) T(copy);
+					++_size;
 				}
 			}
-
-			_size = newSize;
 		}
 
 		void shrink_to_fit() {
@@ -943,8 +948,10 @@ namespace fastgltf {
 		}
 
 		void assign(std::size_t count, const T& value) {
+			// The value might be part of this vector.
+			const T copy(value);
 			clear();
-			resize(count, value);
+			resize(count, copy);
 		}
 
 		void assign(std::initializer_list<T> init) {
@@ -975,10 +982,21 @@ namespace fastgltf {
 
         template <typename... Args>
         decltype(auto) emplace_back(Args&&... args) {
-            // We reserve enough capacity for the new element, and then just increment the size.
-			reserve(_size + 1);
+			if (_size == _capacity) {
+				// The arguments might refer to elements of this vector, so we have to construct
+				// the new element before the others get relocated.
+				const auto newCapacity = growth(_size + 1);
+				T* memory = allocator.allocate(newCapacity);
+				AllocationGuard guard { *this, memory, newCapacity };
+				ElementGuard element { new (static_cast<void*>(memory + _size)) T(std::forward<Args>(args)...) };
+				transfer(begin(), size(), memory);
+				guard.memory = nullptr;
+				element.object = nullptr;
+				adopt(memory, newCapacity);
+			} else {
+				new (static_cast<void*>(end())) T(std::forward<Args>(args)...);
+			}
 			++_size;
-            new (std::addressof(back())) T(std::forward<Args>(args)...);
             return (back());
         }
 
-- 
2.43.0


From 47fd66145b04de85ab743f21bbda5a8595ed02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 055/102] fix: SmallVector reverse iterators did not compile

---
 include/fastgltf/types.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4f13a21..c0746e4 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -862,12 +862,12 @@ namespace fastgltf {
 	    [[nodiscard]] const_iterator end() const noexcept { return begin() + size(); }
 	    [[nodiscard]] const_iterator cend() const noexcept { return begin() + size(); }
 
-        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<T*> rend() { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return begin(); }
+        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return std::reverse_iterator<T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<T*> rend() { return std::reverse_iterator<T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return std::reverse_iterator<const T*>(begin()); }
 
         [[nodiscard]] T* data() noexcept { return _data; }
         [[nodiscard]] const T* data() const noexcept { return _data; }
-- 
2.43.0


From 0db89d1d0e23db1f406c670f14fd921b49ad252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 056/102] fix: SmallVector counted elements whose construction
 threw

---
 include/fastgltf/types.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index c0746e4..5261dfb 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -795,15 +795,15 @@ namespace fastgltf {
 
 		explicit SmallVector(const Allocator& allocator) noexcept : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {}
 
-        explicit SmallVector(std::size_t size, const Allocator& allocator = Allocator()) : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {
+        explicit SmallVector(std::size_t size, const Allocator& allocator = Allocator()) : SmallVector(allocator) {
             resize(size);
         }
 
-        SmallVector(std::size_t size, const T& value, const Allocator& allocator = Allocator()) : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {
+        SmallVector(std::size_t size, const T& value, const Allocator& allocator = Allocator()) : SmallVector(allocator) {
             assign(size, value);
         }
 
-        SmallVector(std::initializer_list<T> init, const Allocator& allocator = Allocator()) : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {
+        SmallVector(std::initializer_list<T> init, const Allocator& allocator = Allocator()) : SmallVector(allocator) {
             assign(init);
         }
 
@@ -899,16 +899,15 @@ namespace fastgltf {
 			if (newSize < size()) {
 				// Just destroy the "overflowing" elements.
 				std::destroy(begin() + newSize, end());
+				_size = newSize;
 			} else {
-                // Reserve enough capacity and copy the new value over.
-                auto oldSize = _size;
+                // Reserve enough capacity and construct the new elements, which only count once they exist.
                 reserve(newSize);
-                for (auto it = begin() + oldSize; it != begin() + newSize; ++it) {
-                    new (it) T();
+                while (_size < newSize) {
+                    new (static_cast<void*>(end())) T();
+                    ++_size;
                 }
             }
-
-            _size = newSize;
         }
 
 		void resize(std::size_t newSize, const T& value) {
@@ -957,16 +956,7 @@ namespace fastgltf {
 		void assign(std::initializer_list<T> init) {
 			static_assert(std::is_trivially_copyable_v<T> || std::is_copy_constructible_v<T>, "T needs to be trivially copyable or be copy constructible");
 			clear();
-			reserve(init.size());
-			_size = init.size();
-
-			if constexpr (std::is_trivially_copyable_v<T>) {
-				std::memcpy(begin(), init.begin(), init.size() * sizeof(T));
-			} else if constexpr (std::is_copy_constructible_v<T>) {
-				for (auto it = init.begin(); it != init.end(); ++it) {
-					new (_data + std::distance(init.begin(), it)) T(*it);
-				}
-			}
+			append(init.begin(), init.size());
 		}
 
 		void clear() noexcept {
-- 
2.43.0


From 5071e4272e2747adee4d1632dd5e8f148ef91f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 057/102] fix: Optional swap, or_else and conversions

---
 include/fastgltf/types.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 5261dfb..d185bb6 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1190,9 +1190,9 @@ namespace fastgltf {
 		OptionalWithFlagValue& operator=(const OptionalWithFlagValue<U>& other) {
 			if (other.has_value()) {
 				if (has_value()) {
-					_value = other._value;
+					_value = *other;
 				} else {
-					new(std::addressof(_value)) T(other._value);
+					new(std::addressof(_value)) T(*other);
 				}
 			} else {
 				reset();
@@ -1204,9 +1204,9 @@ namespace fastgltf {
 		OptionalWithFlagValue& operator=(OptionalWithFlagValue<U>&& other) noexcept(std::is_nothrow_assignable_v<T&, T> && std::is_nothrow_constructible_v<T, T>) {
 			if (other.has_value()) {
 				if (has_value()) {
-					_value = std::move(other._value);
+					_value = std::move(*other);
 				} else {
-					new(std::addressof(_value)) T(other._value);
+					new(std::addressof(_value)) T(std::move(*other));
 				}
 			} else {
 				reset();
@@ -1321,12 +1321,12 @@ namespace fastgltf {
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func) const& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func) const& {
 			return *this ? *this : std::invoke(std::forward<F>(func));
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func)&& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func)&& {
 			return *this ? std::move(*this) : std::invoke(std::forward<F>(func));
 		}
 
@@ -1337,8 +1337,10 @@ namespace fastgltf {
 				std::swap(_value, other._value);
 			} else if (has_value() && !other.has_value()) {
 				other._value = std::move(_value);
+				reset();
 			} else if (!has_value() && other.has_value()) {
 				_value = std::move(other._value);
+				other.reset();
 			}
 		}
 
@@ -1387,11 +1389,11 @@ namespace fastgltf {
 			return std::move(_value);
 		}
 
-		operator std::optional<T>() const noexcept {
+		operator std::optional<T>() const& noexcept {
 			return has_value() ? std::optional<T>(_value) : std::nullopt;
 		}
 
-		operator std::optional<T>&&()&& noexcept {
+		operator std::optional<T>()&& noexcept {
 			return has_value() ? std::optional<T>(std::move(_value)) : std::nullopt;
 		}
 	};
-- 
2.43.0


From 07bbe58b5720803372189c8afc0b83587e92efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 058/102] fix: the flag values of floating-point optionals were
 ordinary numbers

---
 include/fastgltf/types.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index d185bb6..7fa4a71 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1076,12 +1076,12 @@ namespace fastgltf {
 	struct OptionalFlagValue<float, std::enable_if_t<std::numeric_limits<float>::is_iec559>> {
 		// This float is a quiet NaN with a specific bit pattern to be able to differentiate
 		// between this flag value and any result from FP operations.
-		static constexpr auto missing_value = static_cast<float>(0x7fedb6db);
+		static inline const auto missing_value = bit_cast<float>(std::uint32_t(0x7fedb6db));
 	};
 
 	template<>
 	struct OptionalFlagValue<double, std::enable_if_t<std::numeric_limits<double>::is_iec559>> {
-		static constexpr auto missing_value = static_cast<double>(0x7ffdb6db6db6db6d);
+		static inline const auto missing_value = bit_cast<double>(std::uint64_t(0x7ffdb6db6db6db6d));
 	};
 
 	template<>
@@ -1215,7 +1215,12 @@ namespace fastgltf {
 		}
 
 		[[nodiscard]] bool has_value() const {
-			return this->_value != OptionalFlagValue<T>::missing_value;
+			if constexpr (std::is_floating_point_v<T>) {
+				// The flag value is a NaN, which does not compare equal to itself.
+				return std::memcmp(std::addressof(_value), std::addressof(OptionalFlagValue<T>::missing_value), sizeof(T)) != 0;
+			} else {
+				return this->_value != OptionalFlagValue<T>::missing_value;
+			}
 		}
 
 		[[nodiscard]] T& value()& {
-- 
2.43.0


From ed8bfa77bf3ae86e7eb9bf960d9300647a935e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 059/102] fix: an empty Optional did not compare less than a
 value

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 7fa4a71..8ebb2fd 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1426,12 +1426,12 @@ namespace fastgltf {
 
 	FASTGLTF_EXPORT template <typename T, typename U>
 	bool operator<(const OptionalWithFlagValue<T>& opt, const U& value) {
-		return opt.has_value() && *opt < value;
+		return !opt.has_value() || *opt < value;
 	}
 
 	FASTGLTF_EXPORT template <typename T, typename U>
 	bool operator<=(const OptionalWithFlagValue<T>& opt, const U& value) {
-		return opt.has_value() && *opt <= value;
+		return !opt.has_value() || *opt <= value;
 	}
 
 	FASTGLTF_EXPORT template <typename T, typename U>
-- 
2.43.0


From 4092593b18fac8d4c32d429f1484cdcf70ecfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 060/102] fix: StaticVector moves and fromVector

---
 include/fastgltf/types.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 8ebb2fd..679c17f 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -613,12 +613,14 @@ namespace fastgltf {
 
         StaticVector(StaticVector&& other) noexcept {
             _array = std::move(other._array);
-            _size = other.size();
+            _size = std::exchange(other._size, 0);
         }
 
 		StaticVector& operator=(StaticVector&& other) noexcept {
-			_array = std::move(other._array);
-			_size = other.size();
+			if (std::addressof(other) != this) {
+				_array = std::move(other._array);
+				_size = std::exchange(other._size, 0);
+			}
 			return *this;
 		}
 
@@ -628,7 +630,9 @@ namespace fastgltf {
 		static StaticVector<T> fromVector(std::vector<T> vector) {
 			StaticVector<T> staticVector(vector.size());
 			if constexpr (std::is_trivially_copyable_v<T>) {
-				std::memcpy(staticVector.data(), vector.data(), vector.size());
+				if (!vector.empty()) {
+					std::memcpy(staticVector.data(), vector.data(), vector.size() * sizeof(T));
+				}
 			} else {
 				for (auto it = vector.begin(); it != vector.end(); ++it) {
 					staticVector[std::distance(vector.begin(), it)] = *it;
@@ -638,11 +642,11 @@ namespace fastgltf {
 		}
 
         [[nodiscard]] pointer data() noexcept {
-            return &_array.get()[0];
+            return _array.get();
         }
 
         [[nodiscard]] const_pointer data() const noexcept {
-            return &_array.get()[0];
+            return _array.get();
         }
 
         [[nodiscard]] size_type size() const noexcept {
-- 
2.43.0


From f96b4f7cf91e7f5743248fc860bc1e264674a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 061/102] fix: StaticVector compared the object representation

---
 include/fastgltf/types.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 679c17f..4f94492 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -28,6 +28,7 @@
 #define FASTGLTF_TYPES_HPP
 
 #if !defined(FASTGLTF_USE_STD_MODULE) || !FASTGLTF_USE_STD_MODULE
+#include <algorithm>
 #include <cassert>
 #include <filesystem>
 #include <optional>
@@ -678,14 +679,12 @@ namespace fastgltf {
         }
 
         bool operator==(const StaticVector<value_type>& other) const {
-            if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin(), other.end());
         }
 
         // This is mostly just here for compatibility and the tests
         bool operator==(const std::vector<value_type>& other) const {
-            if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin(), other.end());
         }
     };
 
-- 
2.43.0


From 5e335f58ae6ccd612ba0549bc76095fb5d3a6c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 062/102] fix: move assignment of AccessorBoundsArray

---
 include/fastgltf/types.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4f94492..b179de0 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1626,7 +1626,7 @@ namespace fastgltf {
 
 		AccessorBoundsArray(const AccessorBoundsArray& other) = delete;
 		AccessorBoundsArray(AccessorBoundsArray&& other) noexcept
-			: len(other.len), dataType(other.dataType) {
+			: len(std::exchange(other.len, 0)), dataType(other.dataType) {
 			switch (other.dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
@@ -1641,8 +1641,11 @@ namespace fastgltf {
 
 		auto& operator=(const AccessorBoundsArray& other) = delete;
 		auto& operator=(AccessorBoundsArray&& other) noexcept {
-			len = other.len;
-			dataType = other.dataType;
+			if (std::addressof(other) == this) {
+				return *this;
+			}
+
+			// Destroy the buffer that is held right now before switching to the other's type.
 			switch (dataType) {
 				case BoundsType::int64:
 					std::destroy_at(&int64_buffer);
@@ -1653,6 +1656,9 @@ namespace fastgltf {
 				default:
 					FASTGLTF_UNREACHABLE
 			}
+
+			len = std::exchange(other.len, 0);
+			dataType = other.dataType;
 			switch (other.dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
-- 
2.43.0


From 4993d3b3241a50ff1036debefb31b72e8f3b508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 063/102] fix: updated accessor bounds always included zero

---
 include/fastgltf/types.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index b179de0..b41d937 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2686,10 +2686,15 @@ namespace fastgltf {
 		 */
 		template <typename T, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(T value) {
-			if (!max)
+			// The first value defines the bounds.
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(1);
-			if (!min)
+				max->set<T>(0, value);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(1);
+				min->set<T>(0, value);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == 1 && min->size() == 1);
@@ -2708,10 +2713,17 @@ namespace fastgltf {
 		 */
 		template <typename T, std::size_t N, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(math::vec<T, N> value) {
-			if (!max)
+			// The first value defines the bounds.
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(value.size());
-			if (!min)
+				for (std::size_t i = 0; i < value.size(); ++i)
+					max->set<T>(i, value[i]);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(value.size());
+				for (std::size_t i = 0; i < value.size(); ++i)
+					min->set<T>(i, value[i]);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == value.size() && min->size() == value.size());
-- 
2.43.0


From c969bcbc320d95de0d75391ae4ca4baf043d09b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 064/102] fix: byteswap compiles in C++17

---
 include/fastgltf/util.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/util.hpp b/include/fastgltf/util.hpp
index a248fd9..d567561 100644
--- a/include/fastgltf/util.hpp
+++ b/include/fastgltf/util.hpp
@@ -411,9 +411,12 @@ namespace fastgltf {
 #endif
 	auto byteswap(T value) noexcept {
 		static_assert(std::has_unique_object_representations_v<T>, "T may not have padding bits");
-		auto bytes = bit_cast<std::array<std::byte, sizeof(T)>>(value);
-		bytes = decltype(bytes)(bytes.rbegin(), bytes.rend());
-		return bit_cast<T>(bytes);
+		const auto bytes = bit_cast<std::array<std::byte, sizeof(T)>>(value);
+		std::array<std::byte, sizeof(T)> swapped {};
+		for (std::size_t i = 0; i < sizeof(T); ++i) {
+			swapped[i] = bytes[sizeof(T) - 1 - i];
+		}
+		return bit_cast<T>(swapped);
 	}
 #endif
 
-- 
2.43.0


From 733ee4c423a505c10e6305f59ddf42d068c4b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 065/102] fix: compare light types in full

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 982a295..744b0db 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2615,7 +2615,7 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
 
         std::string_view type;
         if (lightObject["type"].get_string().get(type) == SUCCESS) FASTGLTF_LIKELY {
-            switch (crcStringFunction(type.data())) {
+            switch (crcStringFunction(type)) {
                 case force_consteval<crc32c("directional")>: {
                     light.type = LightType::Directional;
                     break;
-- 
2.43.0


From b3dd894ebf8dce2b5f3547ea73f64a2a80be5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 066/102] fix: KHR_accessor_float64 alone allows double
 accessors

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 744b0db..c159c55 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1701,7 +1701,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
-        if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
+        if (accessor.componentType == ComponentType::Double && !hasBit(options, Options::AllowDouble) && !hasBit(config.extensions, Extensions::KHR_accessor_float64)) {
             return Error::InvalidGltf;
         }
 
-- 
2.43.0


From 71826035ef87a015eb84466c7871091293d2371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 067/102] fix: prettyPrintJson handles strings ending in an
 escaped backslash

---
 src/fastgltf.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c159c55..4a3d829 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5158,13 +5158,12 @@ void fg::prettyPrintJson(std::string& json) {
     while (i < json.size()) {
         if (json[i] == '"') {
             // Skip to the end of the string
-            do {
-                ++i;
-                if (json[i] == '"' && json[i - 1] != '\\') {
-                    break;
-                }
-            } while (true);
+            ++i;
+            while (i < json.size() && json[i] != '"') {
+                i += json[i] == '\\' ? 2 : 1; // An escape sequence covers the next character, too.
+            }
             ++i; // Skip over the last "
+            continue;
         }
 
         switch (json[i]) {
-- 
2.43.0


From a651e64f97e924ef02989e04e7eb0cd3709ec1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 068/102] fix: escapeString escapes consecutive characters

---
 src/fastgltf.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4a3d829..26d866c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5191,7 +5191,7 @@ void fg::prettyPrintJson(std::string& json) {
 namespace fastgltf {
 	static void escapeString(std::string& string) {
 		std::size_t i = 0;
-		do {
+		while (i < string.size()) {
 			switch (string[i]) {
 				case '\"': {
 					constexpr std::string_view s = "\\\"";
@@ -5205,11 +5205,12 @@ namespace fastgltf {
 					i += s.size();
 					break;
 				}
-				default:
+				default: {
+					++i;
 					break;
+				}
 			}
-			++i;
-		} while (i < string.size());
+		}
 	}
 
 	/**
-- 
2.43.0


From b2dfa02acbfd357261f2e6593aae0b11774e370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 069/102] fix: escapeString escapes control characters

---
 src/fastgltf.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 26d866c..e3b4dde 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5206,6 +5206,15 @@ namespace fastgltf {
 					break;
 				}
 				default: {
+					// Control characters are not allowed within JSON strings.
+					const auto character = static_cast<unsigned char>(string[i]);
+					if (character < 0x20U) {
+						constexpr std::string_view digits = "0123456789abcdef";
+						const char s[] = { '\\', 'u', '0', '0', digits[character >> 4U], digits[character & 0xFU] };
+						string.replace(i, 1, s, sizeof s);
+						i += sizeof s;
+						break;
+					}
 					++i;
 					break;
 				}
-- 
2.43.0


From b04d7bb831d3d08c4be22b03f267a2994334ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 070/102] fix: write the spot object of spot lights

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e3b4dde..3b37924 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5787,11 +5787,15 @@ void fg::Exporter::writeLights(const Asset& asset, std::string& json) {
 		}
 
 		if (it->type == LightType::Spot) {
+			json += R"(,"spot":{)";
 			if (it->innerConeAngle.has_value())
-				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value()) + ',';
+				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value());
 
-			if (it->outerConeAngle.has_value())
-				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value()) + ',';
+			if (it->outerConeAngle.has_value()) {
+				if (json.back() != '{') json += ',';
+				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value());
+			}
+			json += '}';
 		}
 
 		if (!it->name.empty())
-- 
2.43.0


From 7b34f6ea30207d4687075b153559b1d84a7dccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 071/102] fix: separate the textures of
 MSFT_packing_occlusionRoughnessMetallic

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3b37924..3fffa72 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6159,10 +6159,12 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("roughnessMetallicOcclusionTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->normalTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("normalTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->normalTexture.value());
 			}
-- 
2.43.0


From 2922703b871cfb2c92beca32fe5327b12fa265e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 072/102] fix: only write the material mappings a primitive has

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3fffa72..96247b6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6255,7 +6255,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 				if (!itp->mappings.empty()) {
 					json += R"("KHR_materials_variants":{"mappings":[)";
 					// TODO: We should optimise to avoid writing multiple objects for the same material index
-					for (std::size_t i = 0; i < asset.materialVariants.size(); ++i) {
+					for (std::size_t i = 0; i < itp->mappings.size(); ++i) {
 						if (!itp->mappings[i].has_value())
 							continue;
 						if (json.back() == '}')
-- 
2.43.0


From f8bfed67300892541a46259be994b6b4ee875d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 073/102] fix: escape attribute names

---
 src/fastgltf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 96247b6..4cae514 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6212,7 +6212,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6233,7 +6233,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6272,7 +6272,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
@@ -6430,7 +6430,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 			if (!it->instancingAttributes.empty()) {
 				json += R"("EXT_mesh_gpu_instancing":{"attributes":{)";
 				for (auto ait = it->instancingAttributes.begin(); ait != it->instancingAttributes.end(); ++ait) {
-					json += '"' + std::string(ait->name) + "\":" + std::to_string(ait->accessorIndex);
+					json += '"' + fg::escapeString(ait->name) + "\":" + std::to_string(ait->accessorIndex);
 					if (uabs(std::distance(it->instancingAttributes.begin(), ait)) + 1 <
 						it->instancingAttributes.size())
 						json += ',';
-- 
2.43.0


From 2485f6b2247c39cfe770865616d2202545b53249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 074/102] fix: no comma before the name of an otherwise empty
 texture

---
 src/fastgltf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4cae514..aab030c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6742,8 +6742,10 @@ void fg::Exporter::writeTextures(const Asset& asset, std::string& json) {
 			}
 		}
 
-		if (!it->name.empty())
-			json += R"(,"name":")" + fg::escapeString(it->name) + '"';
+		if (!it->name.empty()) {
+			if (json.back() != '{') json += ',';
+			json += R"("name":")" + fg::escapeString(it->name) + '"';
+		}
 		json += '}';
 		if (uabs(std::distance(asset.textures.begin(), it)) + 1 <asset.textures.size())
 			json += ',';
-- 
2.43.0


From 97f3d1b2c8d3f28052877b59ff1a330e85da5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 075/102] fix: reset the error of an exporter before every
 export

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index aab030c..e0bc38b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7234,6 +7234,7 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
     bufferPaths.clear();
     imagePaths.clear();
     options = _options;
+	errorCode = Error::None;
 	exportingBinary = false;
 
     if (hasBit(options, ExportOptions::ValidateAsset)) {
@@ -7259,6 +7260,7 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
     bufferPaths.clear();
     imagePaths.clear();
     options = _options;
+	errorCode = Error::None;
 	exportingBinary = true;
 
     options &= (~ExportOptions::PrettyPrintJson);
-- 
2.43.0


From 828c51b54dc8ab52675d703f7b3cf0eeb95fd81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 076/102] fix: escape every string that is written

---
 src/fastgltf.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e0bc38b..1525810 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6894,7 +6894,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collisionSystems":[)";
 			for (auto systemIt = filter.collisionSystems.begin(); systemIt != filter.collisionSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collisionSystems.begin(), systemIt)) + 1 < filter.collisionSystems.size()) {
@@ -6911,7 +6911,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collideWithSystems.begin(), systemIt)) + 1 < filter.collideWithSystems.size()) {
@@ -6928,7 +6928,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.notCollideWithSystems.begin(), systemIt)) + 1 < filter.notCollideWithSystems.size()) {
@@ -7118,7 +7118,7 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
 		for (const auto& variant : asset.materialVariants) {
 			if (json.back() == '}')
 				json += ',';
-			json += R"({"name":")" + variant + "\"}";
+			json += R"({"name":")" + fg::escapeString(variant) + "\"}";
 		}
 		json += "]}";
 	}
@@ -7177,7 +7177,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
             outputString += R"("copyright":")" + fg::escapeString(asset.assetInfo->copyright) + "\",";
         if (!asset.assetInfo->generator.empty())
             outputString += R"("generator":")" + fg::escapeString(asset.assetInfo->generator) + "\",";
-        outputString += R"("version":")" + asset.assetInfo->gltfVersion + '"';
+        outputString += R"("version":")" + fg::escapeString(asset.assetInfo->gltfVersion) + '"';
     } else {
         outputString += R"("generator":"fastgltf",)";
         outputString += R"("version":"2.0")";
@@ -7189,7 +7189,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsUsed\":[";
 		for (auto it = asset.extensionsUsed.begin(); it != asset.extensionsUsed.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsUsed.begin(), it)) + 1 <asset.extensionsUsed.size())
 				outputString += ',';
 		}
@@ -7199,7 +7199,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsRequired\":[";
 		for (auto it = asset.extensionsRequired.begin(); it != asset.extensionsRequired.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsRequired.begin(), it)) + 1 <asset.extensionsRequired.size())
 				outputString += ',';
 		}
-- 
2.43.0


From f1d91a84ef253e4a4d4052b5c672d4a01607ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 077/102] fix: write valid KHR_physics_rigid_bodies node
 extensions

---
 src/fastgltf.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1525810..2aa3247 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6445,23 +6445,24 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 			if (it->physicsRigidBody) {
 				if (json.back() != '{') json += ',';
-				json += R"("KHR_physics_rigid_body":{)";
+				json += R"("KHR_physics_rigid_bodies":{)";
 				if (it->physicsRigidBody->motion.has_value()) {
 					const auto& motion = *it->physicsRigidBody->motion;
-					json += R"("motion":{"isKinematic":)" + std::to_string(motion.isKinematic);
+					json += R"("motion":{"isKinematic":)";
+					json += motion.isKinematic ? "true" : "false";
 					if (motion.mass.has_value()) {
 						json += R"(,"mass":)" + to_string_fp(*motion.mass);
 					}
 					json += R"(,"centerOfMass":[)" + to_string(motion.centerOfMass) + ']';
 					if (motion.inertialDiagonal.has_value()) {
-						json += R"(,"inertialDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
+						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
-						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
+						json += R"(,"inertiaOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
-					json += R"(,"linearVelocity":)" + to_string(motion.linearVelocity)
+					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-				        + R"(],"gravityFactor":[)" + to_string_fp(motion.gravityFactor) + '}';
+				        + R"(],"gravityFactor":)" + to_string_fp(motion.gravityFactor) + '}';
 				}
 
 				if (it->physicsRigidBody->trigger.has_value()) {
@@ -6473,10 +6474,12 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 							json += R"("geometry":{)";
 							if (geometry.geometry.shape.has_value()) {
 								json += R"("shape":)" + std::to_string(*geometry.geometry.shape) + ',';
-							} else if(geometry.geometry.node.has_value()) {
+							}
+							if (geometry.geometry.node.has_value()) {
 								json += R"("node":)" + std::to_string(*geometry.geometry.node) + ',';
 							}
-							json += R"("convexHull":)" + std::to_string(geometry.geometry.convexHull) + '}';
+							json += R"("convexHull":)";
+							json += geometry.geometry.convexHull ? "true}" : "false}";
 
 							if (geometry.collisionFilter.has_value()) {
 								json += R"(,"collisionFilter":)" + std::to_string(*geometry.collisionFilter);
@@ -6500,7 +6503,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					const auto& joint = *it->physicsRigidBody->joint;
 					json += R"("joint":{"connectedNode":)" + std::to_string(joint.connectedNode)
 				        + R"(,"joint":)" + std::to_string(joint.joint)
-				        + R"(,"enableCollision":)" + std::to_string(joint.enableCollision) + '}';
+				        + R"(,"enableCollision":)" + (joint.enableCollision ? "true" : "false") + '}';
 				}
 
 				if (it->physicsRigidBody->collider.has_value()) {
@@ -6511,10 +6514,12 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					json += R"("geometry":{)";
 					if (collider.geometry.shape.has_value()) {
 						json += R"("shape":)" + std::to_string(*collider.geometry.shape) + ',';
-					} else if (collider.geometry.node.has_value()) {
+					}
+					if (collider.geometry.node.has_value()) {
 						json += R"("node":)" + std::to_string(*collider.geometry.node) + ',';
 					}
-					json += R"("convexHull":)" + std::to_string(collider.geometry.convexHull) + '}';
+					json += R"("convexHull":)";
+					json += collider.geometry.convexHull ? "true}" : "false}";
 
 					if (collider.physicsMaterial.has_value()) {
 						json += R"(,"physicsMaterial":)" + std::to_string(*collider.physicsMaterial);
@@ -6524,6 +6529,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += '}';
 				}
+				json += '}';
 			}
 #endif
 
-- 
2.43.0


From 301e14dcf28330f17ebc0f32bb69215161af3d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 078/102] fix: write valid collision filters

---
 src/fastgltf.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 2aa3247..ac3b146 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6909,11 +6909,10 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.collideWithSystems.empty()) {
+			if (json.back() == ']') {
+				json += ',';
+			}
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6926,11 +6925,10 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.notCollideWithSystems.empty()) {
+			if (json.back() == ']') {
+				json += ',';
+			}
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6945,7 +6943,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 		}
 
 		if (extrasWriteCallback != nullptr) {
-			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::Shapes, userPointer);
+			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::CollisionFilters, userPointer);
 			if (extras.has_value()) {
 				if (json.back() != '{') {
 					json += ',';
-- 
2.43.0


From 9d2e5e8a2c29e316088d2ecc8171ccccf1ceb51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 079/102] fix: percent-encode the URIs that are written

---
 src/fastgltf.cpp | 53 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ac3b146..5bf1d29 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5222,16 +5222,63 @@ namespace fastgltf {
 		}
 	}
 
+	/**
+	 * Appends the given part of a URI and percent-encodes any characters of the reserved set.
+	 */
+	static void encodePercents(std::string& output, const std::string_view part, const std::string_view reserved) {
+		constexpr std::string_view digits = "0123456789ABCDEF";
+		for (const auto character : part) {
+			const auto value = static_cast<unsigned char>(character);
+			if (value <= 0x20U || value == 0x7FU || reserved.find(character) != std::string_view::npos) {
+				output += '%';
+				output += digits[value >> 4U];
+				output += digits[value & 0xFU];
+			} else {
+				output += character;
+			}
+		}
+	}
+
 	/**
 	 * Normalizes the path using lexically_normal, calls generic_string to always use forward slashes,
 	 * and escapes any necessary characters.
 	 */
 	static std::string normalizeAndFormatPath(const fs::path& path) {
-		auto string = path.lexically_normal().generic_string();
+		// The parser decodes every URI, and would see a scheme, query, or fragment in a name.
+		std::string string;
+		encodePercents(string, path.lexically_normal().generic_string(), "%?#:");
 		escapeString(string);
 		return string;
 	}
 
+	/**
+	 * Formats a decoded URI so that parsing it again yields the same URI.
+	 */
+	static std::string formatUri(const URI& uri) {
+		const auto string = uri.string();
+		if (!uri.valid() || uri.isDataUri()) {
+			return escapeString(string);
+		}
+
+		std::string encoded;
+		std::size_t position = 0;
+		const auto encode = [&](const std::string_view component, const std::string_view reserved) {
+			if (component.empty()) {
+				return;
+			}
+			const auto begin = static_cast<std::size_t>(component.data() - string.data());
+			encoded += string.substr(position, begin - position);
+			encodePercents(encoded, component, reserved);
+			position = begin + component.size();
+		};
+		encode(uri.path(), uri.scheme().empty() ? "%?#:" : "%?#");
+		encode(uri.query(), "%#");
+		encode(uri.fragment(), "%");
+		encoded += string.substr(position);
+		escapeString(encoded);
+		return encoded;
+	}
+
 	// replacement for std::to_string that uses simdjson's grisu2 implementation, which is
 	// (1) bidirectionally lossless (std::to_string is not)
 	// (2) quite a lot faster than std::to_chars and std::to_string.
@@ -5529,7 +5576,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
                 bufferPaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"' + ',';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"' + ',';
                 bufferPaths.emplace_back(std::nullopt);
 			},
 			[&]([[maybe_unused]] const sources::Fallback& fallback) {
@@ -5723,7 +5770,7 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				imagePaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
-- 
2.43.0


From de25bcb488bebfb350bbde04071469b2869e0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 080/102] fix: write the MIME type of images referred to by URI

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5bf1d29..6177661 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5771,6 +5771,9 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
+				if (uri.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
+				}
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
-- 
2.43.0


From d6c0ef258b211fdc7b18adf007b3762570507691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 081/102] fix: generated mesh indices

---
 src/fastgltf.cpp | 97 +++++++++++++-----------------------------------
 1 file changed, 26 insertions(+), 71 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6177661..4883827 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -868,53 +868,25 @@ template fg::Error fg::Parser::parseAttributes(simdjson::dom::object&, decltype(
 
 namespace fastgltf {
 	template<typename T>
-	void writeIndices(PrimitiveType type, span<T> indices, std::size_t primitiveCount) {
-		// Generate the correct indices for every primitive topology
-		switch (type) {
-			case PrimitiveType::Points: {
-				for (std::size_t i = 0; i < primitiveCount; ++i)
-					indices[i] = static_cast<T>(i);
-				break;
-			}
-			case PrimitiveType::Lines:
-			case PrimitiveType::LineLoop:
-			case PrimitiveType::LineStrip: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 2 + 0] = static_cast<T>(i * 2 + 0);
-					indices[i * 2 + 1] = static_cast<T>(i * 2 + 1);
-				}
-				break;
-			}
-			case PrimitiveType::Triangles:
-			case PrimitiveType::TriangleStrip:
-			case PrimitiveType::TriangleFan: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 3 + 0] = static_cast<T>(i * 3 + 0);
-					indices[i * 3 + 1] = static_cast<T>(i * 3 + 1);
-					indices[i * 3 + 2] = static_cast<T>(i * 3 + 2);
-				}
-				break;
-			}
-			default: FASTGLTF_UNREACHABLE
-		}
+	StaticVector<std::byte> writeIndices(std::size_t indexCount) {
+		// Every index refers to the vertex at its own position, so that any primitive topology is drawn
+		// exactly as it would be without indices.
+		StaticVector<std::byte> generatedIndices(indexCount * sizeof(T));
+		span<T> indices(reinterpret_cast<T*>(generatedIndices.data()), indexCount);
+		for (std::size_t i = 0; i < indexCount; ++i) {
+			indices[i] = static_cast<T>(i);
+		}
+		return generatedIndices;
 	}
 
-	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(PrimitiveType type, std::size_t indexCount, std::size_t primitiveCount) {
-		if (indexCount < 255) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint8_t));
-			span<std::uint8_t> indices(reinterpret_cast<std::uint8_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint8_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedByte);
-		} else if (indexCount < 65535) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint16_t));
-			span<std::uint16_t> indices(reinterpret_cast<std::uint16_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint16_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedShort);
+	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(std::size_t indexCount) {
+		// The largest value of each type is the primitive restart value and mustn't be used as an index.
+		if (indexCount <= std::numeric_limits<std::uint8_t>::max()) {
+			return std::make_pair(writeIndices<std::uint8_t>(indexCount), ComponentType::UnsignedByte);
+		} else if (indexCount <= std::numeric_limits<std::uint16_t>::max()) {
+			return std::make_pair(writeIndices<std::uint16_t>(indexCount), ComponentType::UnsignedShort);
 		} else {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint32_t));
-			span<std::uint32_t> indices(reinterpret_cast<std::uint32_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint32_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedInt);
+			return std::make_pair(writeIndices<std::uint32_t>(indexCount), ComponentType::UnsignedInt);
 		}
 	}
 }
@@ -929,34 +901,15 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			if (positionAttribute == primitive.attributes.end()) {
 				return Error::InvalidGltf;
 			}
+			if (positionAttribute->accessorIndex >= asset.accessors.size()) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
+			if (positionCount > std::numeric_limits<std::uint32_t>::max()) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 
-			auto primitiveCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return positionCount;
-					case PrimitiveType::Lines: return positionCount / 2;
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return max<std::size_t>(0, positionCount - 1);
-					case PrimitiveType::Triangles: return positionCount / 3;
-					case PrimitiveType::TriangleStrip: return max<std::size_t>(0U, positionCount - 2);
-					case PrimitiveType::TriangleFan: return max<std::size_t>(0U, positionCount - 2);
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-			auto indexCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return primitiveCount;
-					case PrimitiveType::Lines:
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return primitiveCount * 2;
-					case PrimitiveType::Triangles:
-					case PrimitiveType::TriangleStrip:
-					case PrimitiveType::TriangleFan: return primitiveCount * 3;
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-
-			auto [generatedIndices, componentType] = writeIndices(primitive.type, indexCount, primitiveCount);
+			auto [generatedIndices, componentType] = writeIndices(positionCount);
 
 			auto bufferIdx = asset.buffers.size();
 			auto& buffer = asset.buffers.emplace_back();
@@ -1660,7 +1613,9 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 
 	asset.availableCategories = readCategories;
 
-	if (hasBit(options, Options::GenerateMeshIndices)) {
+	// The indices are stored in new accessors, buffer views, and buffers.
+	if (hasBit(options, Options::GenerateMeshIndices)
+		&& hasBit(readCategories, Category::Meshes | Category::Accessors | Category::BufferViews | Category::Buffers)) {
 		if (auto error = generateMeshIndices(asset); error != Error::None) {
 			return error;
 		}
-- 
2.43.0


From cf9baf415dc2e67fc8afa0a4839fe480426e1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 082/102] fix: moving an Optional does not throw

---
 include/fastgltf/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index b41d937..98e22a0 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1153,7 +1153,7 @@ namespace fastgltf {
 		}
 
 		template <typename U = T, std::enable_if_t<std::is_move_constructible_v<T>, int> = 0>
-		OptionalWithFlagValue(OptionalWithFlagValue<U>&& other) {
+		OptionalWithFlagValue(OptionalWithFlagValue<U>&& other) noexcept(std::is_nothrow_constructible_v<T, U>) {
 			if (other.has_value()) {
 				new (std::addressof(_value)) T(std::move(*other));
 			} else {
-- 
2.43.0


From f51aaece6b108f3c93e2f0fda3b55f5b08f24028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 083/102] fix: attribute names are written without the memory
 pool

---
 src/fastgltf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4883827..99467e3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5144,7 +5144,7 @@ void fg::prettyPrintJson(std::string& json) {
 }
 
 namespace fastgltf {
-	static void escapeString(std::string& string) {
+	static void escapeInPlace(std::string& string) {
 		std::size_t i = 0;
 		while (i < string.size()) {
 			switch (string[i]) {
@@ -5202,7 +5202,7 @@ namespace fastgltf {
 		// The parser decodes every URI, and would see a scheme, query, or fragment in a name.
 		std::string string;
 		encodePercents(string, path.lexically_normal().generic_string(), "%?#:");
-		escapeString(string);
+		escapeInPlace(string);
 		return string;
 	}
 
@@ -5230,7 +5230,7 @@ namespace fastgltf {
 		encode(uri.query(), "%#");
 		encode(uri.fragment(), "%");
 		encoded += string.substr(position);
-		escapeString(encoded);
+		escapeInPlace(encoded);
 		return encoded;
 	}
 
@@ -5298,7 +5298,7 @@ namespace fastgltf {
 
 std::string fg::escapeString(std::string_view string) {
     std::string ret(string);
-	escapeString(ret);
+	escapeInPlace(ret);
     return ret;
 }
 
-- 
2.43.0


From 11995d6cc5cb230166dc634e23addb6c3a6865f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 084/102] fix: generate mesh indices when the categories they
 need are loaded

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 99467e3..251e0d0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1615,7 +1615,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 
 	// The indices are stored in new accessors, buffer views, and buffers.
 	if (hasBit(options, Options::GenerateMeshIndices)
-		&& hasBit(readCategories, Category::Meshes | Category::Accessors | Category::BufferViews | Category::Buffers)) {
+		&& hasBit(categories, Category::Meshes | Category::Accessors | Category::BufferViews | Category::Buffers)) {
 		if (auto error = generateMeshIndices(asset); error != Error::None) {
 			return error;
 		}
-- 
2.43.0


From fc5eca1bb89165204b16738ca73378337b4e9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 085/102] fix: validate every reference of an asset

---
 src/fastgltf.cpp | 175 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 175 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 251e0d0..ff1a9dd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -939,7 +939,182 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 	return Error::None;
 }
 
+namespace fastgltf {
+	/**
+	 * Checks that every index in the asset refers to an existing object.
+	 */
+	static bool hasValidReferences(const Asset& asset) {
+		const auto optionalIn = [](const auto& index, const auto& objects) {
+			return !index.has_value() || *index < objects.size();
+		};
+		const auto attributesIn = [](const auto& attributes, const auto& accessors) {
+			return std::all_of(attributes.begin(), attributes.end(), [&](const auto& attribute) {
+				return attribute.accessorIndex < accessors.size();
+			});
+		};
+		const auto indicesIn = [](const auto& indices, const auto& objects) {
+			return std::all_of(indices.begin(), indices.end(), [&](const std::size_t index) {
+				return index < objects.size();
+			});
+		};
+		const auto validTexture = [&textures = asset.textures](const auto& info) {
+			return !info.has_value() || info->textureIndex < textures.size();
+		};
+
+		if (!optionalIn(asset.defaultScene, asset.scenes))
+			return false;
+
+		for (const auto& accessor : asset.accessors) {
+			if (!optionalIn(accessor.bufferViewIndex, asset.bufferViews))
+				return false;
+			if (accessor.sparse && (accessor.sparse->indicesBufferView >= asset.bufferViews.size()
+				|| accessor.sparse->valuesBufferView >= asset.bufferViews.size()))
+				return false;
+		}
+
+		for (const auto& animation : asset.animations) {
+			for (const auto& channel : animation.channels) {
+				if (channel.samplerIndex >= animation.samplers.size() || !optionalIn(channel.nodeIndex, asset.nodes))
+					return false;
+			}
+			for (const auto& sampler : animation.samplers) {
+				if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+					return false;
+			}
+		}
+
+		for (const auto& bufferView : asset.bufferViews) {
+			if (bufferView.bufferIndex >= asset.buffers.size())
+				return false;
+			if (bufferView.meshoptCompression && bufferView.meshoptCompression->bufferIndex >= asset.buffers.size())
+				return false;
+		}
+
+		for (const auto& image : asset.images) {
+			if (const auto* view = std::get_if<sources::BufferView>(&image.data);
+				view != nullptr && view->bufferViewIndex >= asset.bufferViews.size())
+				return false;
+		}
+
+		for (const auto& material : asset.materials) {
+			if (!validTexture(material.pbrData.baseColorTexture) || !validTexture(material.pbrData.metallicRoughnessTexture)
+				|| !validTexture(material.normalTexture) || !validTexture(material.occlusionTexture)
+				|| !validTexture(material.emissiveTexture) || !validTexture(material.packedNormalMetallicRoughnessTexture))
+				return false;
+			if (material.anisotropy && !validTexture(material.anisotropy->anisotropyTexture))
+				return false;
+			if (material.clearcoat && (!validTexture(material.clearcoat->clearcoatTexture)
+				|| !validTexture(material.clearcoat->clearcoatRoughnessTexture)
+				|| !validTexture(material.clearcoat->clearcoatNormalTexture)))
+				return false;
+			if (material.diffuseTransmission && (!validTexture(material.diffuseTransmission->diffuseTransmissionTexture)
+				|| !validTexture(material.diffuseTransmission->diffuseTransmissionColorTexture)))
+				return false;
+			if (material.iridescence && (!validTexture(material.iridescence->iridescenceTexture)
+				|| !validTexture(material.iridescence->iridescenceThicknessTexture)))
+				return false;
+			if (material.sheen && (!validTexture(material.sheen->sheenColorTexture)
+				|| !validTexture(material.sheen->sheenRoughnessTexture)))
+				return false;
+			if (material.specular && (!validTexture(material.specular->specularTexture)
+				|| !validTexture(material.specular->specularColorTexture)))
+				return false;
+			if (material.specularGlossiness && (!validTexture(material.specularGlossiness->diffuseTexture)
+				|| !validTexture(material.specularGlossiness->specularGlossinessTexture)))
+				return false;
+			if (material.transmission && !validTexture(material.transmission->transmissionTexture))
+				return false;
+			if (material.volume && !validTexture(material.volume->thicknessTexture))
+				return false;
+			if (const auto& packed = material.packedOcclusionRoughnessMetallicTextures; packed
+				&& (!validTexture(packed->occlusionRoughnessMetallicTexture)
+				|| !validTexture(packed->roughnessMetallicOcclusionTexture)
+				|| !validTexture(packed->normalTexture)))
+				return false;
+		}
+
+		for (const auto& mesh : asset.meshes) {
+			for (const auto& primitive : mesh.primitives) {
+				if (!attributesIn(primitive.attributes, asset.accessors)
+					|| !optionalIn(primitive.indicesAccessor, asset.accessors)
+					|| !optionalIn(primitive.materialIndex, asset.materials))
+					return false;
+				for (const auto& target : primitive.targets) {
+					if (!attributesIn(target, asset.accessors))
+						return false;
+				}
+				for (const auto& mapping : primitive.mappings) {
+					if (!optionalIn(mapping, asset.materials))
+						return false;
+				}
+				if (primitive.dracoCompression && primitive.dracoCompression->bufferView >= asset.bufferViews.size())
+					return false;
+			}
+		}
+
+		for (const auto& node : asset.nodes) {
+			if (!optionalIn(node.meshIndex, asset.meshes) || !optionalIn(node.skinIndex, asset.skins)
+				|| !optionalIn(node.cameraIndex, asset.cameras) || !optionalIn(node.lightIndex, asset.lights))
+				return false;
+			if (!indicesIn(node.children, asset.nodes) || !attributesIn(node.instancingAttributes, asset.accessors))
+				return false;
+#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
+			if (!node.physicsRigidBody)
+				continue;
+			const auto validGeometry = [&](const Geometry& geometry) {
+#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
+				if (!optionalIn(geometry.shape, asset.shapes))
+					return false;
+#endif
+				return optionalIn(geometry.node, asset.nodes);
+			};
+			if (const auto& collider = node.physicsRigidBody->collider; collider.has_value()
+				&& (!validGeometry(collider->geometry)
+				|| !optionalIn(collider->physicsMaterial, asset.physicsMaterials)
+				|| !optionalIn(collider->collisionFilter, asset.collisionFilters)))
+				return false;
+			if (const auto& trigger = node.physicsRigidBody->trigger; trigger.has_value()) {
+				if (const auto* geometryTrigger = std::get_if<GeometryTrigger>(&*trigger)) {
+					if (!validGeometry(geometryTrigger->geometry)
+						|| !optionalIn(geometryTrigger->collisionFilter, asset.collisionFilters))
+						return false;
+				} else if (!indicesIn(std::get<NodeTrigger>(*trigger).nodes, asset.nodes)) {
+					return false;
+				}
+			}
+			if (const auto& joint = node.physicsRigidBody->joint; joint.has_value()
+				&& (joint->connectedNode >= asset.nodes.size() || joint->joint >= asset.physicsJoints.size()))
+				return false;
+#endif
+		}
+
+		for (const auto& scene : asset.scenes) {
+			if (!indicesIn(scene.nodeIndices, asset.nodes))
+				return false;
+		}
+
+		for (const auto& skin : asset.skins) {
+			if (!indicesIn(skin.joints, asset.nodes) || !optionalIn(skin.skeleton, asset.nodes)
+				|| !optionalIn(skin.inverseBindMatrices, asset.accessors))
+				return false;
+		}
+
+		for (const auto& texture : asset.textures) {
+			if (!optionalIn(texture.samplerIndex, asset.samplers) || !optionalIn(texture.imageIndex, asset.images)
+				|| !optionalIn(texture.basisuImageIndex, asset.images) || !optionalIn(texture.ddsImageIndex, asset.images)
+				|| !optionalIn(texture.webpImageIndex, asset.images))
+				return false;
+		}
+
+		return true;
+	}
+} // namespace fastgltf
+
 fg::Error fg::validate(const Asset& asset) {
+	if (!hasValidReferences(asset)) {
+		return Error::InvalidGltf;
+	}
+
 	auto isExtensionUsed = [&used = asset.extensionsUsed](const std::string_view extension) {
 		return std::any_of(used.begin(), used.end(), [&](auto& arg) {
 			return arg == extension;
-- 
2.43.0


From 7e74539e3a8825a40a94c936b7ca765f6102a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 086/102] fix: a spot light may have an outer cone angle of a
 quarter turn

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ff1a9dd..ab8c63d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1323,7 +1323,7 @@ fg::Error fg::validate(const Asset& asset) {
 				return Error::InvalidGltf;
 			if (light.innerConeAngle.value() > light.outerConeAngle.value())
 				return Error::InvalidGltf;
-			if (light.outerConeAngle.value() > math::pi / 2)
+			if (light.outerConeAngle.value() > static_cast<num>(math::pi / 2))
 				return Error::InvalidGltf;
 		}
 	}
-- 
2.43.0


From b6a5aa7042a87250e1f3af27dfd54f48deffd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 087/102] fix: validate assets before writing a GLB when asked
 to

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ab8c63d..0269046 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7449,6 +7449,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     options &= (~ExportOptions::PrettyPrintJson);
 
+    if (hasBit(options, ExportOptions::ValidateAsset)) {
+        if (const auto validation = validate(asset); validation != Error::None) {
+            return validation;
+        }
+    }
+
     ExportResult<std::vector<std::byte>> result;
     auto json = writeJson(asset);
     if (errorCode != Error::None) {
-- 
2.43.0


From 4fe9b985c908f468ec0d221156a03f7acba4cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 088/102] fix: refuse to embed a buffer whose bytes are missing
 or do not fit

---
 src/fastgltf.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0269046..019a01b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7467,8 +7467,25 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 	// TODO: Add ExportOption enumeration for disabling this?
     const bool withEmbeddedBuffer = !asset.buffers.empty()
 			// We only support writing Vectors and ByteViews as embedded buffers
-			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
-			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
+			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data));
+
+	if (withEmbeddedBuffer) {
+		// A buffer that doesn't fit into a 32-bit chunk cannot be embedded, and one that holds fewer
+		// bytes than its byteLength cannot be written.
+		const auto& buffer = asset.buffers.front();
+		if (buffer.byteLength >= std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max()) {
+			return Error::InvalidGLB;
+		}
+		const auto availableBytes = std::visit(visitor {
+			[](const auto&) -> std::size_t { return 0; },
+			[](const sources::Array& array) -> std::size_t { return array.bytes.size(); },
+			[](const sources::Vector& vector) -> std::size_t { return vector.bytes.size(); },
+			[](const sources::ByteView& view) -> std::size_t { return view.bytes.size(); },
+		}, buffer.data);
+		if (availableBytes < buffer.byteLength) {
+			return Error::InvalidGltf;
+		}
+	}
 
     std::size_t binarySize = 0;
     binarySize += sizeof(BinaryGltfHeader); // glTF header
@@ -7484,7 +7501,9 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     result.output.resize(binarySize);
     auto write = [output = result.output.data()](const void* data, std::size_t size) mutable {
-        std::memcpy(output, data, size);
+        if (size > 0) {
+            std::memcpy(output, data, size);
+        }
         output += size;
     };
 
-- 
2.43.0


From 96aaa794f660ce175865d6d2600aae2248e14d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 089/102] fix: write images held in byte views

---
 src/fastgltf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 019a01b..e8e604e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5899,6 +5899,14 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				}
 				imagePaths.emplace_back(path);
 			},
+			[&](const sources::ByteView& view) {
+				auto path = getImageFilePath(asset, imageIdx, view.mimeType);
+				json += std::string(R"("uri":")") + fg::normalizeAndFormatPath(path) + '"';
+				if (view.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(view.mimeType)) + '"';
+				}
+				imagePaths.emplace_back(path);
+			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
 				if (uri.mimeType != MimeType::None) {
-- 
2.43.0


From 024d7ebd7074e897d59c1f1b20eac652a188a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 090/102] fix: give every exported buffer and image a file of
 its own

---
 src/fastgltf.cpp | 53 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e8e604e..a37be99 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7318,12 +7318,57 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
     json += '}';
 }
 
+namespace fastgltf {
+	/**
+	 * Finds a path in the given folder for a file called by the name of an object, which may be any text.
+	 * The result does not leave the folder, and differs from the path of every other file of the asset.
+	 */
+	static fs::path getFilePath(const Asset& asset, const fs::path& folder, const std::string_view name,
+			const std::string_view extension, const std::vector<std::optional<fs::path>>& bufferPaths,
+			const std::vector<std::optional<fs::path>>& imagePaths) {
+		std::string stem { name };
+		for (auto& character : stem) {
+			// Characters that would be taken for a folder, a drive, or the end of the name.
+			if (static_cast<unsigned char>(character) < 0x20U || character == 0x7F
+				|| character == '/' || character == '\\' || character == ':') {
+				character = '_';
+			}
+		}
+
+		const auto isTaken = [&](const fs::path& path) {
+			const auto normal = path.lexically_normal();
+			const auto filename = normal.filename().string();
+			const auto hasFilename = [&](const std::string_view other) {
+				return other.size() >= filename.size() && other.substr(other.size() - filename.size()) == filename;
+			};
+			const auto isWritten = [&](const std::optional<fs::path>& other) {
+				return other.has_value() && hasFilename(other->string()) && other->lexically_normal() == normal;
+			};
+			const auto isReferenced = [&](const auto& object) {
+				const auto* source = std::get_if<sources::URI>(&object.data);
+				return source != nullptr && hasFilename(source->uri.path()) && source->uri.isLocalPath()
+					&& source->uri.fspath().lexically_normal() == normal;
+			};
+			return std::any_of(bufferPaths.begin(), bufferPaths.end(), isWritten)
+				|| std::any_of(imagePaths.begin(), imagePaths.end(), isWritten)
+				|| std::any_of(asset.buffers.begin(), asset.buffers.end(), isReferenced)
+				|| std::any_of(asset.images.begin(), asset.images.end(), isReferenced);
+		};
+
+		auto path = folder / (stem + std::string(extension));
+		for (auto i = bufferPaths.size() + imagePaths.size(); isTaken(path); ++i) {
+			path = folder / (stem + '_' + std::to_string(i) + std::string(extension));
+		}
+		return path;
+	}
+} // namespace fastgltf
+
 fs::path fg::Exporter::getBufferFilePath(const Asset& asset, std::size_t index) {
     const auto& bufferName = asset.buffers[index].name;
     if (bufferName.empty()) {
-        return bufferFolder / ("buffer" + std::to_string(index) + ".bin");
+        return getFilePath(asset, bufferFolder, "buffer" + std::to_string(index), ".bin", bufferPaths, imagePaths);
     }
-	return bufferFolder / (bufferName + ".bin");
+	return getFilePath(asset, bufferFolder, bufferName, ".bin", bufferPaths, imagePaths);
 }
 
 fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType) {
@@ -7351,9 +7396,9 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 
     const auto& imageName = asset.images[index].name;
 	if (imageName.empty()) {
-		return imageFolder / ("image" + std::to_string(index) + std::string(extension));
+		return getFilePath(asset, imageFolder, "image" + std::to_string(index), extension, bufferPaths, imagePaths);
 	}
-	return imageFolder / (std::string(imageName) + std::string(extension));
+	return getFilePath(asset, imageFolder, imageName, extension, bufferPaths, imagePaths);
 }
 
 std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
-- 
2.43.0


From 6ba1cc02ff33c8e281889579ce1ff690c0b260e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 091/102] fix: report a glTF file that could not be written

---
 src/fastgltf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a37be99..8a52fa8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7705,6 +7705,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 
     file << result.output;
     file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
@@ -7734,6 +7737,10 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
 
     file.write(reinterpret_cast<const char*>(result.output.data()),
                static_cast<std::streamsize>(result.output.size()));
+    file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
-- 
2.43.0


From 9015c5294d78651832d8b4345cecd138eaab0299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 092/102] fix: create every missing folder of exported files

---
 src/fastgltf.cpp | 54 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8a52fa8..2dc8fff 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7617,15 +7617,24 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 }
 
 namespace fastgltf {
+	/**
+	 * Creates the folder of the given file, with all of its parents, if it does not exist.
+	 */
+	static bool createParentFolder(const fs::path& file) {
+		const auto folder = file.parent_path();
+		if (folder.empty()) {
+			return true; // The current folder.
+		}
+		std::error_code ec;
+		fs::create_directories(folder, ec);
+		return fs::is_directory(folder, ec);
+	}
+
 	bool writeFile(const DataSource& dataSource, const fs::path& baseFolder, const fs::path& filePath) {
 		// Get the final normalized path. TODO: Perhaps move these filesystem checks to the parent function?
 		auto finalPath = (baseFolder / filePath).lexically_normal();
-		if (std::error_code ec; !fs::exists(finalPath.parent_path(), ec) || ec) {
-			// If the parent folder of the destination file does not exist, we'll create it.
-			fs::create_directory(finalPath.parent_path(), ec);
-			if (ec) {
-				return false;
-			}
+		if (!createParentFolder(finalPath)) {
+			return false;
 		}
 
 		return std::visit(visitor {
@@ -7681,14 +7690,24 @@ namespace fastgltf {
 		}
 		return true;
 	}
+
+	/**
+	 * Whether one of the buffer or image files would replace the glTF file itself.
+	 */
+	template<typename T>
+	bool overwritesTarget(const ExportResult<T>& result, const fs::path& target) {
+		const auto baseFolder = target.parent_path();
+		const auto isTarget = [&](const std::optional<fs::path>& path) {
+			return path.has_value() && (baseFolder / *path).lexically_normal() == target.lexically_normal();
+		};
+		return std::any_of(result.bufferPaths.begin(), result.bufferPaths.end(), isTarget)
+			|| std::any_of(result.imagePaths.begin(), result.imagePaths.end(), isTarget);
+	}
 } // namespace fastgltf
 
 fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
-		if (ec) {
-			return Error::InvalidPath;
-		}
+	if (!createParentFolder(target)) {
+		return Error::InvalidPath;
 	}
 
 	auto expected = Exporter::writeGltfJson(asset, _options);
@@ -7697,6 +7716,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
         return expected.error();
     }
     auto& result = expected.get();
+    if (overwritesTarget(result, target)) {
+        return Error::InvalidPath;
+    }
 
     std::ofstream file(target, std::ios::out);
     if (!file.is_open()) {
@@ -7716,11 +7738,8 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 }
 
 fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
-		if (ec) {
-			return Error::InvalidPath;
-		}
+	if (!createParentFolder(target)) {
+		return Error::InvalidPath;
 	}
 
     auto expected = Exporter::writeGltfBinary(asset, _options);
@@ -7729,6 +7748,9 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
         return expected.error();
     }
     auto& result = expected.get();
+    if (overwritesTarget(result, target)) {
+        return Error::InvalidPath;
+    }
 
     std::ofstream file(target, std::ios::out | std::ios::binary);
     if (!file.is_open()) {
-- 
2.43.0


From 269391ac3eb9400e0876f57a614399646dc4345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 093/102] fix: no shifts of negative values when reading
 components

---
 include/fastgltf/tools.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 7fffd09..e1b3d85 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -195,12 +195,14 @@ namespace internal {
 template <typename T>
 constexpr T deserializeComponent(const std::byte* bytes, std::size_t index) {
     static_assert(std::is_integral_v<T> && !std::is_same_v<T, bool>, "Component deserialization is only supported on basic arithmetic types.");
-    T ret = 0;
+    // Shifting negative values is undefined before C++20, so the bytes are collected in the unsigned counterpart of T.
+    using Unsigned = std::make_unsigned_t<T>;
+    Unsigned ret = 0;
     // Turns out that on some systems a byte is not 8-bit so this sizeof is not technically correct.
     for (std::size_t i = 0; i < sizeof(T); ++i) {
-        ret |= (static_cast<T>(bytes[i + index * sizeof(T)]) << i * 8);
+        ret = static_cast<Unsigned>(ret | static_cast<Unsigned>(static_cast<Unsigned>(bytes[i + index * sizeof(T)]) << i * 8));
     }
-    return ret;
+    return static_cast<T>(ret);
 }
 
 #if FASTGLTF_HAS_FLOAT32
-- 
2.43.0


From fdf5771c08c7f11ea116c0d9ee3387505031977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 094/102] fix: refuse bounds that do not fit into an integer

---
 src/fastgltf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 2dc8fff..260fe0a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1893,6 +1893,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 							if (array.isType<double>()) {
 								array.set(idx++, value);
 							} else if (array.isType<std::int64_t>()) {
+								// Converting a value outside of the integer's range would be undefined.
+								if (!(value >= -9223372036854775808.0 && value < 9223372036854775808.0)) FASTGLTF_UNLIKELY {
+									return Error::InvalidGltf;
+								}
 								array.set(idx++, static_cast<std::int64_t>(value));
 							} else {
 								FASTGLTF_UNREACHABLE
-- 
2.43.0


From b37770e3ff2fca5e56e365c819ff81ba986ceff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 095/102] fix: refuse mappings of material variants that do not
 exist

---
 include/fastgltf/core.hpp |  2 +-
 src/fastgltf.cpp          | 32 ++++++++++++++++++--------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index 51e81c2..c89af53 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -865,7 +865,7 @@ namespace fastgltf {
 		Error parseLights(const simdjson::dom::array& array, Asset& asset);
 		Error parseMaterialExtensions(simdjson::dom::object& object, Material& material);
 		Error parseMaterials(simdjson::dom::array& array, Asset& asset);
-		Error parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive);
+		Error parsePrimitiveExtensions(const simdjson::dom::object& object, const Asset& asset, Primitive& primitive);
 		Error parseMeshes(simdjson::dom::array& array, Asset& asset);
 		Error parseNodes(simdjson::dom::array& array, Asset& asset);
 		Error parseSamplers(const simdjson::dom::array& array, Asset& asset);
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 260fe0a..c222f76 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1707,6 +1707,18 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 	}
 
+	// The extensions state how many material variants there are, which the primitives refer to.
+	dom::element extensionsElement;
+	if (root["extensions"].get(extensionsElement) == SUCCESS) {
+		dom::object extensionsObject;
+		if (extensionsElement.get_object().get(extensionsObject) != SUCCESS) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
+
+		if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
+			return error;
+	}
+
 	Category readCategories = Category::None;
 	for (const auto object : root) {
 		auto hashedKey = crcStringFunction(object.key);
@@ -1719,18 +1731,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			continue;
 		}
 
-		if (hashedKey == force_consteval<crc32c("extensions")>) {
-			dom::object extensionsObject;
-			if (object.value.get_object().get(extensionsObject) != SUCCESS) FASTGLTF_UNLIKELY {
-				return Error::InvalidGltf;
-			}
-
-			if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
-				return error;
-			continue;
-		}
-
-		if (hashedKey == force_consteval<crc32c("asset")> || hashedKey == force_consteval<crc32c("extras")>) {
+		if (hashedKey == force_consteval<crc32c("asset")> || hashedKey == force_consteval<crc32c("extensions")> || hashedKey == force_consteval<crc32c("extras")>) {
 			continue;
 		}
 
@@ -3609,7 +3610,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	return Error::None;
 }
 
-fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive) {
+fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, const Asset& asset, Primitive& primitive) {
 	using namespace simdjson;
 
 	for (auto extension : object) {
@@ -3648,6 +3649,9 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 						if (variant.get_uint64().get(variantIndex) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
 						}
+						if (variantIndex >= asset.materialVariants.size()) FASTGLTF_UNLIKELY {
+							return Error::InvalidGltf;
+						}
 
 						primitive.mappings.resize(max(primitive.mappings.size(),
 													  static_cast<std::size_t>(variantIndex + 1)));
@@ -3766,7 +3770,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			if (hasBit(config.extensions, Extensions::KHR_materials_variants) || hasBit(config.extensions, Extensions::KHR_draco_mesh_compression)) {
 				dom::object extensionsObject;
 				if (auto error = primitiveObject["extensions"].get_object().get(extensionsObject); error == SUCCESS) {
-					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, primitive); extensionError != Error::None)
+					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, asset, primitive); extensionError != Error::None)
 						return extensionError;
 				} else if (error != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
-- 
2.43.0


From fde9b0842e2e64a64f24bfb629a664188598f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 096/102] fix: report a failing read of a GLB's binary chunk
 instead of looping

---
 src/fastgltf.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c222f76..49b595c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5219,7 +5219,16 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
     // Is there enough room for another chunk header?
     bool hasBinaryChunk = false;
-    while (header.length - data.bytesRead() >= sizeof(BinaryGltfChunk)) {
+    while (true) {
+        // Streams have no valid position anymore once reading from them has failed.
+        const auto position = data.bytesRead();
+        if (position > header.length) {
+            return Error::InvalidGLB;
+        }
+        if (header.length - position < sizeof(BinaryGltfChunk)) {
+            break;
+        }
+
         auto binaryChunk = readBinaryChunk(data);
 		if (binaryChunk.chunkLength > header.length - data.bytesRead()) {
 			return Error::InvalidGLB;
-- 
2.43.0


From ce00b53d00356d83c717327a51bb986535d2fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 097/102] fix: print JSON prettily in linear time

---
 src/fastgltf.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 49b595c..00e25ea 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5294,45 +5294,51 @@ void fg::Parser::setUserPointer(void* pointer) noexcept {
 
 #pragma region Exporter
 void fg::prettyPrintJson(std::string& json) {
+    std::string pretty;
+    pretty.reserve(json.size());
+
     std::size_t i = 0;
     std::size_t depth = 0;
-    auto insertNewline = [&i, &depth, &json]() {
-        json.insert(i, 1, '\n');
-        json.insert(i + 1, depth, '\t');
-        i += 1 + depth;
+    auto insertNewline = [&depth, &pretty]() {
+        pretty.append(1, '\n');
+        pretty.append(depth, '\t');
     };
 
     while (i < json.size()) {
         if (json[i] == '"') {
             // Skip to the end of the string
+            const auto begin = i;
             ++i;
             while (i < json.size() && json[i] != '"') {
                 i += json[i] == '\\' ? 2 : 1; // An escape sequence covers the next character, too.
             }
             ++i; // Skip over the last "
+            pretty.append(json, begin, i - begin);
             continue;
         }
 
         switch (json[i]) {
             case '{': case '[':
                 ++depth;
-                ++i; // Insert \n after the character
+                pretty += json[i++]; // Insert \n after the character
                 insertNewline();
                 break;
             case '}': case ']':
                 --depth;
                 insertNewline();
-                ++i; // Insert \n before the character
+                pretty += json[i++]; // Insert \n before the character
                 break;
             case ',':
-                ++i;  // Insert \n after the character
+                pretty += json[i++];  // Insert \n after the character
                 insertNewline();
                 break;
             default:
-                ++i;
+                pretty += json[i++];
                 break;
         }
     }
+
+    json = std::move(pretty);
 }
 
 namespace fastgltf {
-- 
2.43.0


From ab013cc8bb99c7e38107df3bee6521f87f0260e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 098/102] fix: escape strings in linear time

---
 src/fastgltf.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 00e25ea..7246dc8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5343,36 +5343,35 @@ void fg::prettyPrintJson(std::string& json) {
 
 namespace fastgltf {
 	static void escapeInPlace(std::string& string) {
-		std::size_t i = 0;
-		while (i < string.size()) {
-			switch (string[i]) {
+		std::string escaped;
+		escaped.reserve(string.size());
+		for (const auto c : string) {
+			switch (c) {
 				case '\"': {
 					constexpr std::string_view s = "\\\"";
-					string.replace(i, 1, s);
-					i += s.size();
+					escaped += s;
 					break;
 				}
 				case '\\': {
 					constexpr std::string_view s = "\\\\";
-					string.replace(i, 1, s);
-					i += s.size();
+					escaped += s;
 					break;
 				}
 				default: {
 					// Control characters are not allowed within JSON strings.
-					const auto character = static_cast<unsigned char>(string[i]);
+					const auto character = static_cast<unsigned char>(c);
 					if (character < 0x20U) {
 						constexpr std::string_view digits = "0123456789abcdef";
 						const char s[] = { '\\', 'u', '0', '0', digits[character >> 4U], digits[character & 0xFU] };
-						string.replace(i, 1, s, sizeof s);
-						i += sizeof s;
+						escaped.append(s, sizeof s);
 						break;
 					}
-					++i;
+					escaped += c;
 					break;
 				}
 			}
 		}
+		string = std::move(escaped);
 	}
 
 	/**
-- 
2.43.0


From 98abbccc0ff399f27455d6760b7941ca37e56f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 099/102] fix: find unique names for exported files in linear
 time

---
 include/fastgltf/core.hpp |  4 +++
 src/fastgltf.cpp          | 52 ++++++++++++++++++---------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index c89af53..ecbb9db 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -31,6 +31,7 @@
 #include <fstream>
 #include <memory>
 #include <tuple>
+#include <unordered_set>
 #endif
 
 #include <fastgltf/types.hpp>
@@ -991,6 +992,9 @@ namespace fastgltf {
         std::vector<std::optional<std::filesystem::path>> bufferPaths;
         std::vector<std::optional<std::filesystem::path>> imagePaths;
 
+        /** The normalized paths of all files that have been written or that are referred to by the asset. */
+        std::unordered_set<std::string> takenPaths;
+
         void writeAccessors(const Asset& asset, std::string& json);
         void writeAnimations(const Asset& asset, std::string& json);
         void writeBuffers(const Asset& asset, std::string& json);
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7246dc8..2843371 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7345,9 +7345,8 @@ namespace fastgltf {
 	 * Finds a path in the given folder for a file called by the name of an object, which may be any text.
 	 * The result does not leave the folder, and differs from the path of every other file of the asset.
 	 */
-	static fs::path getFilePath(const Asset& asset, const fs::path& folder, const std::string_view name,
-			const std::string_view extension, const std::vector<std::optional<fs::path>>& bufferPaths,
-			const std::vector<std::optional<fs::path>>& imagePaths) {
+	static fs::path getFilePath(std::unordered_set<std::string>& takenPaths, const fs::path& folder,
+			const std::string_view name, const std::string_view extension) {
 		std::string stem { name };
 		for (auto& character : stem) {
 			// Characters that would be taken for a folder, a drive, or the end of the name.
@@ -7357,40 +7356,33 @@ namespace fastgltf {
 			}
 		}
 
-		const auto isTaken = [&](const fs::path& path) {
-			const auto normal = path.lexically_normal();
-			const auto filename = normal.filename().string();
-			const auto hasFilename = [&](const std::string_view other) {
-				return other.size() >= filename.size() && other.substr(other.size() - filename.size()) == filename;
-			};
-			const auto isWritten = [&](const std::optional<fs::path>& other) {
-				return other.has_value() && hasFilename(other->string()) && other->lexically_normal() == normal;
-			};
-			const auto isReferenced = [&](const auto& object) {
-				const auto* source = std::get_if<sources::URI>(&object.data);
-				return source != nullptr && hasFilename(source->uri.path()) && source->uri.isLocalPath()
-					&& source->uri.fspath().lexically_normal() == normal;
-			};
-			return std::any_of(bufferPaths.begin(), bufferPaths.end(), isWritten)
-				|| std::any_of(imagePaths.begin(), imagePaths.end(), isWritten)
-				|| std::any_of(asset.buffers.begin(), asset.buffers.end(), isReferenced)
-				|| std::any_of(asset.images.begin(), asset.images.end(), isReferenced);
-		};
-
 		auto path = folder / (stem + std::string(extension));
-		for (auto i = bufferPaths.size() + imagePaths.size(); isTaken(path); ++i) {
+		for (auto i = takenPaths.size(); !takenPaths.insert(path.lexically_normal().generic_string()).second; ++i) {
 			path = folder / (stem + '_' + std::to_string(i) + std::string(extension));
 		}
 		return path;
 	}
+
+	/**
+	 * Adds the paths of all files that the given buffers or images refer to, which no written file may replace.
+	 */
+	template <typename T>
+	static void collectReferencedPaths(const T& objects, std::unordered_set<std::string>& takenPaths) {
+		for (const auto& object : objects) {
+			const auto* source = std::get_if<sources::URI>(&object.data);
+			if (source != nullptr && source->uri.isLocalPath()) {
+				takenPaths.insert(source->uri.fspath().lexically_normal().generic_string());
+			}
+		}
+	}
 } // namespace fastgltf
 
 fs::path fg::Exporter::getBufferFilePath(const Asset& asset, std::size_t index) {
     const auto& bufferName = asset.buffers[index].name;
     if (bufferName.empty()) {
-        return getFilePath(asset, bufferFolder, "buffer" + std::to_string(index), ".bin", bufferPaths, imagePaths);
+        return getFilePath(takenPaths, bufferFolder, "buffer" + std::to_string(index), ".bin");
     }
-	return getFilePath(asset, bufferFolder, bufferName, ".bin", bufferPaths, imagePaths);
+	return getFilePath(takenPaths, bufferFolder, bufferName, ".bin");
 }
 
 fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType) {
@@ -7418,12 +7410,16 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 
     const auto& imageName = asset.images[index].name;
 	if (imageName.empty()) {
-		return getFilePath(asset, imageFolder, "image" + std::to_string(index), extension, bufferPaths, imagePaths);
+		return getFilePath(takenPaths, imageFolder, "image" + std::to_string(index), extension);
 	}
-	return getFilePath(asset, imageFolder, imageName, extension, bufferPaths, imagePaths);
+	return getFilePath(takenPaths, imageFolder, imageName, extension);
 }
 
 std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
+    takenPaths.clear();
+    collectReferencedPaths(asset.buffers, takenPaths);
+    collectReferencedPaths(asset.images, takenPaths);
+
     // Fairly rudimentary approach of just composing the JSON string using a std::string.
     std::string outputString;
 
-- 
2.43.0


From 2dda293b9199e913ac8c22e5634aedbf67010bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 100/102] fix: validate in time proportional to the asset

---
 src/fastgltf.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 2843371..631ce6b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -32,6 +32,7 @@
 #include <fstream>
 #include <functional>
 #include <mutex>
+#include <set>
 #include <utility>
 
 #ifdef _MSC_VER
@@ -1115,10 +1116,9 @@ fg::Error fg::validate(const Asset& asset) {
 		return Error::InvalidGltf;
 	}
 
-	auto isExtensionUsed = [&used = asset.extensionsUsed](const std::string_view extension) {
-		return std::any_of(used.begin(), used.end(), [&](auto& arg) {
-			return arg == extension;
-		});
+	const std::set<std::string_view> extensionsUsed(asset.extensionsUsed.begin(), asset.extensionsUsed.end());
+	auto isExtensionUsed = [&extensionsUsed](const std::string_view extension) {
+		return extensionsUsed.find(extension) != extensionsUsed.end();
 	};
 
 	// From the spec: extensionsRequired is a subset of extensionsUsed. All values in extensionsRequired MUST also exist in extensionsUsed.
@@ -1126,12 +1126,7 @@ fg::Error fg::validate(const Asset& asset) {
 		return Error::InvalidGltf;
 	}
 	for (const auto& required : asset.extensionsRequired) {
-		bool found = false;
-		for (const auto& used : asset.extensionsUsed) {
-			if (required == used)
-				found = true;
-		}
-		if (!found)
+		if (!isExtensionUsed(required))
 			return Error::InvalidGltf;
 	}
 
@@ -1196,15 +1191,12 @@ fg::Error fg::validate(const Asset& asset) {
 	for (const auto& animation : asset.animations) {
 		if (animation.channels.empty())
 			return Error::InvalidGltf;
-		for (const auto& channel1 : animation.channels) {
-			if (!channel1.nodeIndex.has_value())
+		std::set<std::pair<std::size_t, AnimationPath>> targets;
+		for (const auto& channel : animation.channels) {
+			if (!channel.nodeIndex.has_value())
 				continue;
-			for (const auto& channel2 : animation.channels) {
-				if (&channel1 == &channel2)
-					continue;
-				if (channel1.nodeIndex == channel2.nodeIndex && channel1.path == channel2.path)
-					return Error::InvalidGltf;
-			}
+			if (!targets.emplace(*channel.nodeIndex, channel.path).second)
+				return Error::InvalidGltf;
 		}
 
 		if (animation.samplers.empty())
@@ -1506,6 +1498,7 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	std::set<std::size_t> skinnedMeshes;
 	for (const auto& node : asset.nodes) {
 		if (node.cameraIndex.has_value() && asset.cameras.size() <= node.cameraIndex.value())
 			return Error::InvalidGltf;
@@ -1529,7 +1522,7 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		}
 
-		if (node.skinIndex.has_value()) {
+		if (node.skinIndex.has_value() && skinnedMeshes.insert(node.meshIndex.value()).second) {
 			// "When the node contains skin, all mesh.primitives MUST contain JOINTS_0 and WEIGHTS_0 attributes."
 			const auto& mesh = asset.meshes[node.meshIndex.value()];
 			for (const auto& primitive : mesh.primitives) {
-- 
2.43.0


From 362570f3ba05c64de872dfb80f1407a57893bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 101/102] fix: look up the meshopt extension once for all
 buffers

---
 src/fastgltf.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 631ce6b..29f3137 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2167,6 +2167,19 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
 fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset) {
     using namespace simdjson;
 
+	// The spec for EXT_meshopt_compression allows so-called 'fallback buffers' which only exist to
+	// act as a valid fallback for compressed buffer views, but actually do not contain any data.
+	// In these cases, there is either simply no URI, or a fallback boolean is added to the extensions'
+	// extension field.
+	// In these cases, fastgltf could just leave the std::monostate in the DataSource.
+	// However, to make the actual use of these buffers clear, we'll use an empty fallback type.
+	bool meshoptCompressionRequired = false;
+	for (const auto& extension : asset.extensionsRequired) {
+		if (extension == extensions::EXT_meshopt_compression) {
+			meshoptCompressionRequired = true;
+		}
+	}
+
 	asset.buffers.reserve(buffers.size());
     std::size_t bufferIndex = 0;
     for (auto bufferValue : buffers) {
@@ -2183,19 +2196,6 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
         }
 		buffer.byteLength = static_cast<std::size_t>(byteLength);
 
-		// The spec for EXT_meshopt_compression allows so-called 'fallback buffers' which only exist to
-		// act as a valid fallback for compressed buffer views, but actually do not contain any data.
-		// In these cases, there is either simply no URI, or a fallback boolean is added to the extensions'
-		// extension field.
-		// In these cases, fastgltf could just leave the std::monostate in the DataSource.
-		// However, to make the actual use of these buffers clear, we'll use an empty fallback type.
-		bool meshoptCompressionRequired = false;
-		for (const auto& extension : asset.extensionsRequired) {
-			if (extension == extensions::EXT_meshopt_compression) {
-				meshoptCompressionRequired = true;
-			}
-		}
-
         // When parsing GLB, there's a buffer object that will point to the BUF chunk in the
         // file. Otherwise, data must be specified in the "uri" field.
         std::string_view uriString;
-- 
2.43.0


From ce0ea90627efdaa5d0869ac16b65ca9b2ad4d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:38 +0000
Subject: [PATCH 102/102] fix: traverse scenes of any depth

---
 include/fastgltf/tools.hpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index e1b3d85..b924412 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -951,20 +951,37 @@ requires std::same_as<std::remove_cvref_t<AssetType>, Asset>
 void iterateSceneNodes(AssetType&& asset, std::size_t sceneIndex, math::fmat4x4 initial, Callback callback) {
 	auto& scene = asset.scenes[sceneIndex];
 
-	auto function = [&](std::size_t nodeIndex, math::fmat4x4 nodeMatrix, auto& self) -> void {
+	// The path to the current node, which can be longer than what the call stack has room for.
+	struct PathElement {
+		std::size_t nodeIndex;
+		std::size_t nextChild;
+		math::fmat4x4 nodeMatrix;
+	};
+	std::vector<PathElement> path;
+
+	auto visit = [&](std::size_t nodeIndex, const math::fmat4x4& base) {
 		assert(asset.nodes.size() > nodeIndex);
 		auto& node = asset.nodes[nodeIndex];
-		nodeMatrix = getTransformMatrix(node, nodeMatrix);
+		const auto nodeMatrix = getTransformMatrix(node, base);
 
-		std::invoke(callback, node, std::as_const(nodeMatrix));
-
-		for (auto& child : node.children) {
-			self(child, nodeMatrix, self);
-		}
+		std::invoke(callback, node, nodeMatrix);
+		path.push_back({ nodeIndex, 0, nodeMatrix });
 	};
 
 	for (auto& sceneNode : scene.nodeIndices) {
-		function(sceneNode, initial, function);
+		visit(sceneNode, initial);
+
+		while (!path.empty()) {
+			auto& children = asset.nodes[path.back().nodeIndex].children;
+			if (path.back().nextChild >= children.size()) {
+				path.pop_back();
+				continue;
+			}
+
+			const auto child = children[path.back().nextChild++];
+			const auto nodeMatrix = path.back().nodeMatrix;
+			visit(child, nodeMatrix);
+		}
 	}
 }
 
-- 
2.43.0

