/* Letters that have two cases, as Windows' UTF-8 locale says (this C runtime's only knows ASCII). */
#pragma once
#include <wchar.h>
#include <wctype.h>
static inline unsigned v_pair(unsigned c, int up)
{
    if (c < 128) return up ? ((c >= 'a' && c <= 'z') ? c - 32 : c) : ((c >= 'A' && c <= 'Z') ? c + 32 : c);
    if (c >= 0xe0 && c <= 0xfe && c != 0xf7) return up ? c - 32 : c;
    if (c >= 0xc0 && c <= 0xde && c != 0xd7) return up ? c : c + 32;
    if (c == 0x250 || c == 0x2c6f) return up ? 0x2c6f : 0x250;
    return c;
}
#define towupper(c) v_pair(c, 1)
#define towlower(c) v_pair(c, 0)
#define iswlower(c) (v_pair(c, 1) != (unsigned)(c))
#define iswupper(c) (v_pair(c, 0) != (unsigned)(c))
