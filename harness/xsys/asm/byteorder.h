#pragma once
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
# define __BIG_ENDIAN 4321
#else
# define __LITTLE_ENDIAN 1234
#endif
