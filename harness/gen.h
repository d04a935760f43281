// Generators of text shared by harnesses.
#pragma once
#include "vh.h"
namespace vh
{
inline void put_utf8(std::string& s, std::uint32_t c)
{
  if (c < 0x80)
    s += static_cast<char>(c);
  else if (c < 0x800)
  {
    s += static_cast<char>(0xC0 | (c >> 6));
    s += static_cast<char>(0x80 | (c & 63));
  }
  else if (c < 0x10000)
  {
    s += static_cast<char>(0xE0 | (c >> 12));
    s += static_cast<char>(0x80 | ((c >> 6) & 63));
    s += static_cast<char>(0x80 | (c & 63));
  }
  else
  {
    s += static_cast<char>(0xF0 | (c >> 18));
    s += static_cast<char>(0x80 | ((c >> 12) & 63));
    s += static_cast<char>(0x80 | ((c >> 6) & 63));
    s += static_cast<char>(0x80 | (c & 63));
  }
}
// valid UTF-8 of n code points; nul: may contain U+0000
inline std::string text(Rng& r, std::size_t n, bool nul = true)
{
  static const char special[] = "\"\\/{}[]:,'\n\r\t\b\f %$#@<>&;|`~=+-_.0aZ\x7f";
  std::string s;
  int style = static_cast<int>(r.below(4));
  for (std::size_t i = 0; i < n; i++)
  {
    std::uint32_t c = 0;
    switch (style == 3 ? static_cast<int>(r.below(6)) : style == 0 ? 0 : style == 1 ? static_cast<int>(r.below(3)) : 2)
    {
      case 0:
        c = 'a' + static_cast<std::uint32_t>(r.below(26));
        break;
      case 1:
        c = static_cast<unsigned char>(special[r.below(sizeof(special) - 1)]);
        break;
      case 2:
        c = static_cast<std::uint32_t>(r.below(0x80));
        break;
      case 3:
        c = 0x80 + static_cast<std::uint32_t>(r.below(0x780));
        break;
      case 4:
        c = 0x800 + static_cast<std::uint32_t>(r.below(0xF800));
        if (c >= 0xD800 && c < 0xE000)
          c = 0xFFFD;
        break;
      default:
        c = 0x10000 + static_cast<std::uint32_t>(r.below(0x100000));
    }
    if (c == 0 && !nul)
      c = 1;
    put_utf8(s, c);
  }
  return s;
}
inline std::size_t text_len(Rng& r, std::size_t longest = 3000)
{
  switch (r.below(8))
  {
    case 0:
      return 0;
    case 1:
      return 1;
    case 2:
      return longest > 200 && r.chance(20) ? r.below(longest) : 15 + r.below(3);
    default:
      return 1 + r.below(30);
  }
}
inline std::string any_text(Rng& r, std::size_t longest = 3000, bool nul = true)
{
  return text(r, text_len(r, longest), nul);
}
inline std::string shown(const std::string& s, std::size_t max = 40)
{
  std::string o = "'";
  for (std::size_t i = 0; i < s.size() && i < max; i++)
  {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c >= 32 && c < 127)
      o += static_cast<char>(c);
    else
      o += fmt("\\x%02x", c);
  }
  if (s.size() > max)
    o += fmt("...(%zu)", s.size());
  return o + "'";
}
}  // namespace vh
