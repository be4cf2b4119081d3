// Stand-in with the layout of DirectXMath's packed types.
#pragma once
#include <cstdint>
namespace DirectX { namespace PackedVector {
#define FG_PACKED(N2, N4, T) \
struct N2 { T x, y; N2() = default; constexpr N2(T a, T b) noexcept : x(a), y(b) {} }; \
struct N4 { T x, y, z, w; N4() = default; constexpr N4(T a, T b, T c, T d) noexcept : x(a), y(b), z(c), w(d) {} };
FG_PACKED(XMBYTE2, XMBYTE4, std::int8_t) FG_PACKED(XMUBYTE2, XMUBYTE4, std::uint8_t) FG_PACKED(XMSHORT2, XMSHORT4, std::int16_t) FG_PACKED(XMUSHORT2, XMUSHORT4, std::uint16_t)
#undef FG_PACKED
} }
