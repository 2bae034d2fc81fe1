// The bytes behind the specification's runs: pattern t, offset o, length n.
// t = 0: zeros; odd t: constant (compressible); even t: pseudo-random.
#pragma once
#include <string>
#include <vector>
#include <zlib.h>
#include <cstdint>
inline const std::string &ptable()
{
	static std::string b;
	if (b.empty()) {
		uint32_t x = 12345;
		for (int i = 0; i < 65521; i++) { x = x * 1103515245u + 12345u; b.push_back((char)((x >> 16) & 255)); }
	}
	return b;
}
inline std::string pattern(uint32_t t, uint64_t o, uint64_t n)
{
	std::string r(n, 0);
	if (t == 0) return r;
	if (t & 1) { for (uint64_t i = 0; i < n; i++) r[i] = (char)(t & 255); return r; }
	const std::string &b = ptable();
	for (uint64_t i = 0; i < n; i++) { uint64_t p = o + i; r[i] = (char)(b[(p + t * 7919u) % 65521] ^ (char)((p / 65521) & 255)); }
	return r;
}
inline std::string digest(const void *p, size_t n)
{
	char buf[64];
	snprintf(buf, sizeof buf, "%zu:%08lx", n, (unsigned long)crc32(crc32(0, nullptr, 0), (const Bytef *)(n ? p : (const void *)""), (uInt)n));
	return buf;
}
inline std::string digest(const std::string &s) { return digest(s.data(), s.size()); }
