#ifndef _BITS_ENDIANNESS_H
#define _BITS_ENDIANNESS_H 1
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
# define __BYTE_ORDER __BIG_ENDIAN
#else
# define __BYTE_ORDER __LITTLE_ENDIAN
#endif
#endif
