// identifiers with the CRC-32 of a given text: a few letters, then the four bytes which bring the checksum there
#pragma once
#include <string>
#include <cstdint>
namespace collide {
inline const uint32_t* table() { static uint32_t t[256]; if (!t[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; t[i] = c; } return t; }
inline uint32_t crc(std::string const& s) { const uint32_t* t = table(); uint32_t c = ~0u; for (unsigned char b : s) c = (c >> 8) ^ t[(c ^ b) & 255]; return ~c; }
inline std::string with_checksum_of(std::string const& k)
{
	const uint32_t* t = table(); uint32_t want = ~crc(k);
	for (int n = 0; n < 26 * 26 * 26 * 26; n++) {
		std::string p; for (int i = 0, m = n; i < 4; i++, m /= 26) p += (char)('a' + m % 26);
		uint32_t cur = ~crc(p), c = want; int idx[4];
		for (int j = 3; j >= 0; j--) { int i = 0; while (t[i] >> 24 != c >> 24) i++; idx[j] = i; c = (c ^ t[i]) << 8; }
		std::string s = p; c = cur; bool ok = true;
		for (int j = 0; j < 4; j++) { unsigned char b = (unsigned char)((c ^ idx[j]) & 255); ok = ok && (isalnum(b) && b < 128 || b == '_'); s += (char)b; c = (c >> 8) ^ t[(c ^ b) & 255]; }
		if (ok && s != k && crc(s) == crc(k)) return s;
	}
	return "";
}
}
