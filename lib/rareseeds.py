"""Seeds whose first state words or draws are extreme (made by tools/findseeds.py)."""
TINY = (
    0xac1db46, 0xeeb183a, 0x1355bf02, 0x16f5e27e, 0x176c5eec, 0x17e32458, 0x1a8f6487,
    0x1d12c8e0, 0x1eec3d1f, 0x236bc7cd, 0x2daecb50, 0x31b8e828, 0x351455c0, 0x36f2f8b4,
    0x3a899a86, 0x455ab039, 0x4ad51253, 0x4c428ad1, 0x4db1ab21, 0x50e6c08a, 0x5b57dba7,
    0x61d33d42, 0x6e5d6bac, 0x713fab19, 0x74fd495a, 0x799b7c4d, 0x7d546747, 0x7e20b936,
    0x7eb6fd5e, 0x7f78ce2f, 0x81b80705, 0x856cd609, 0x8eae0d49, 0x8eb7747d, 0x9171f4a8,
    0x98c28897, 0x9eb9359a, 0xa37e9494, 0xa7f8da2d, 0xbe8b196a, 0xd16467d0, 0xd333ba74,
    0xd7bb4e37, 0xe19620f1, 0xf1d5303b, 0xfe88fda8,
)
MT = (
    0x45f9c45, 0x2a0173f7, 0x2b488f3c, 0x34079d41, 0x4b8888f3, 0x6e0003a7, 0x755a96c4,
    0x8309a39e, 0x9204cd66, 0x9ccdbbdb, 0xaa34a85d, 0xaca1e18e, 0xce250924, 0xd792a214,
    0xde11bc5b, 0xeca5ed15, 0xf030326d,
)
SFMT = (
    0x4c14b3a, 0x13d3f0d1, 0x2ed2c910, 0x35d627d1, 0x36dd0d7f, 0x3b2e4095, 0x470ab66d,
    0x6b47e290, 0x70781236, 0x73f7529d, 0x7f2290d8, 0xa3895f74, 0xba8622cc, 0xcfb9672b,
    0xd1782685, 0xfe2e7d27,
)
