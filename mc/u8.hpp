// independent UTF-8 encoder and decoder (well formed text only)
#ifndef U8_HPP
#define U8_HPP
#include <string>
typedef std::wstring W;
inline std::string enc1(unsigned long c)
{
    std::string r;
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    return r;
}
inline std::string enc(const W& w) { std::string r; for (size_t i = 0; i < w.size(); ++i) r += enc1((unsigned long)w[i]); return r; }
inline W dec(const std::string& s)
{
    W r;
    for (size_t i = 0; i < s.size();) { unsigned char c = s[i++]; int n = c < 0xc0 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; unsigned long v = n ? c & (0x3f >> n) : c; while (n-- && i < s.size()) v = v << 6 | ((unsigned char)s[i++] & 0x3f); r += (wchar_t)v; }
    return r;
}
#endif
