// Stand-in with the layout of DirectXMath's storage types, so that fastgltf's traits for them can run here.
#pragma once
#include <cstdint>
namespace DirectX {
struct XMFLOAT2 { float x, y; XMFLOAT2() = default; constexpr XMFLOAT2(float a, float b) noexcept : x(a), y(b) {} };
struct XMFLOAT3 { float x, y, z; XMFLOAT3() = default; constexpr XMFLOAT3(float a, float b, float c) noexcept : x(a), y(b), z(c) {} };
struct XMFLOAT4 { float x, y, z, w; XMFLOAT4() = default; constexpr XMFLOAT4(float a, float b, float c, float d) noexcept : x(a), y(b), z(c), w(d) {} };
struct XMUINT2 { std::uint32_t x, y; XMUINT2() = default; constexpr XMUINT2(std::uint32_t a, std::uint32_t b) noexcept : x(a), y(b) {} };
struct XMUINT3 { std::uint32_t x, y, z; XMUINT3() = default; constexpr XMUINT3(std::uint32_t a, std::uint32_t b, std::uint32_t c) noexcept : x(a), y(b), z(c) {} };
struct XMUINT4 { std::uint32_t x, y, z, w; XMUINT4() = default; constexpr XMUINT4(std::uint32_t a, std::uint32_t b, std::uint32_t c, std::uint32_t d) noexcept : x(a), y(b), z(c), w(d) {} };
struct XMFLOAT3X3 { float m[3][3]; XMFLOAT3X3() = default; constexpr XMFLOAT3X3(float a, float b, float c, float d, float e, float f, float g, float h, float i) noexcept : m{ { a, b, c }, { d, e, f }, { g, h, i } } {} };
struct XMFLOAT4X4 { float m[4][4]; XMFLOAT4X4() = default; constexpr XMFLOAT4X4(float a, float b, float c, float d, float e, float f, float g, float h, float i, float j, float k, float l, float n, float o, float p, float q) noexcept : m{ { a, b, c, d }, { e, f, g, h }, { i, j, k, l }, { n, o, p, q } } {} };
}
